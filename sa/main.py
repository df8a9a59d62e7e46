"""python3 -m sa.main <property>: decide one property on /repo's source."""
import ast
import json
import os
import signal
import sys
import time
from collections import Counter
from multiprocessing import Pool, TimeoutError as TimeoutError_

REPO = os.environ.get('SA_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HELPERS = ('_loc', '_pos', '_delete', '__getitem__', '_build_index')
PRIVATE = {'_loc', '_pos', '_delete', '_build_index'}
CONVENTIONS = PRIVATE


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


_prog = None
_verified = {}


def get_dom(dom, cls):
    if dom == 'list':
        from .listdom import ListDom
        return ListDom(_prog, cls, _verified.get(cls, ()))
    from .setdom import make_dom
    return make_dom(_prog, dom, cls, _verified)


def get_tasks(dom, cls):
    if dom == 'list':
        from .specs import tasks
        return tasks(cls)
    from .setdom import set_tasks
    return set_tasks(dom, cls)


def run_one(job):
    dom, cls, k, limit = job
    t = get_tasks(dom, cls)[k]
    t0 = time.time()
    if t.method in PRIVATE and not fits(cls, t):
        return job, [], {}, 0
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    from .listdom import Ob
    try:
        d = get_dom(dom, cls)
        if dom == 'list':
            from .specs import run_task
        else:
            from .setdom import run_task
        obs, stats = run_task(d, t)
        signal.alarm(0)
    except Timeout:
        obs, stats = [Ob('analysis', 'unk', 'time limit of %d s' % limit)], {}
    except RecursionError:
        signal.alarm(0)
        obs, stats = [Ob('analysis', 'unk', 'recursion too deep')], {}
    except Exception as e:
        signal.alarm(0)
        obs, stats = [Ob('analysis', 'unk', 'analyser gave up: %s %s' % (type(e).__name__, str(e)[:200]))], {}
    for o in obs:
        o.cls, o.method, o.variant = cls, t.method, t.variant
        o.why = str(o.why)[:600]
    return job, obs, stats, time.time() - t0


def helper_contracts(lists, limit, res, methods=None):
    """Which private helpers keep the contract their callers are given."""
    for c in lists:
        _verified[c] = ()
    for names in (('_build_index',), ('_loc', '_pos', '_delete', '__getitem__')):
        pre = []
        for c in lists:
            for k, t in enumerate(get_tasks('list', c)):
                if t.method in names and (t.method in PRIVATE or t.variant != '[a:b:c]' and not t.variant.endswith('sublists') and (
                        methods is None or methods[c] & {'__getitem__', '__delitem__'})):
                    pre.append(('list', c, k, limit))
        with Pool(8) as p:
            for job, obs, stats, dt in p.imap_unordered(run_one, pre, 1):
                res[job[:3]] = (obs, stats, dt)
        for c in lists:
            ok = set(names)
            for (d, c2, k), (obs, stats, dt) in res.items():
                if c2 == c and (not obs or any(o.verdict != 'ok' for o in obs)):
                    ok.discard(get_tasks('list', c)[k].method)
            _verified[c] = tuple(sorted(ok | set(_verified[c])))


def Ob_(*a):
    from .listdom import Ob
    return Ob(*a)


def fits(cls, t):
    """A private helper exists and takes the expected arguments."""
    f = _prog.lookup('sortedlist', cls, t.method)
    if f is None or f[1][0] != 'def':
        return False
    a = f[1][1].args
    return len(a.args) == 1 + len(t.args) and not a.vararg and not a.kwonlyargs and not a.kwarg


def main(argv):
    global _prog
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from .prog import Program
    from .props import PROPS, SLOW
    try:
        _prog = Program(REPO)
    except Exception as e:
        print('ANALYSIS BROKEN: %s: %s' % (type(e).__name__, e))
        return 2
    sels = PROPS[pid]
    limit = 300 if tier == 'quick' else 3000
    deadline = 640 if tier == 'quick' else 10800
    jobs = {}
    for s in sels:
        for c in s.classes:
            hit = set()
            for k, t in enumerate(get_tasks(s.dom, c)):
                if t.method in s.methods:
                    hit.add(t.method)
                    if tier == 'quick' and (c, t.method, t.variant) in SLOW:
                        continue
                    jobs.setdefault((s.dom, c, k), []).append(s)
    # helper contracts, per list class
    res = {}
    lists = sorted({c for d, c, k in jobs if d == 'list'})
    helper_contracts(lists, limit, res, {c: {get_tasks('list', c)[k].method for d, c2, k in jobs if d == 'list' and c2 == c} for c in lists})
    todo = [j + (limit,) for j in jobs if j not in res]
    todo.sort(key=lambda j: -cost(j))
    stopped = None
    if any(alarms(jobs, j, res[j][0]) for j in jobs if j in res):
        stopped, todo = 'a violation was established first', []
    with Pool(8, maxtasksperchild=12) as p:
        it = p.imap_unordered(run_one, todo, 1)
        for _ in todo:
            try:
                job, obs, stats, dt = it.next(max(1, deadline - (time.time() - t0)))
            except TimeoutError_:
                stopped = 'the time for the whole check ran out first'
                break
            res[job[:3]] = (obs, stats, dt)
            if alarms(jobs, job[:3], obs):
                stopped = 'a violation was established first'
                break
        p.terminate()
    for j in jobs:
        if j not in res:
            o = Ob_('analysis', 'unk', stopped or 'not run')
            o.cls, o.method, o.variant = j[1], get_tasks(j[0], j[1])[j[2]].method, get_tasks(j[0], j[1])[j[2]].variant
            res[j] = ([o], {}, 0)
    return report(pid, tier, seed, t0, jobs, res)


def alarms(jobs, j, obs):
    """A definite violation in something public: nothing else need be analysed."""
    if j not in jobs or get_tasks(j[0], j[1])[j[2]].method in CONVENTIONS:
        return False
    return any(o.verdict == 'bad' and any(s.counts(o) for s in jobs[j]) for o in obs)


COST = {'index': 9, 'count': 8, '__delitem__': 7, 'remove': 6, 'discard': 6, '__contains__': 5}


def cost(j):
    t = get_tasks(j[0], j[1])[j[2]]
    return COST.get(t.method, 1) + (1 if 'stop' in t.variant or 'b]' in t.variant else 0) + (j[1] == 'SortedKeyList')


def report(pid, tier, seed, t0, jobs, res):
    n = Counter()
    kinds = Counter()
    bad, unk, hbad = [], [], []
    funcs = set()
    exits = branches = 0
    samples = []
    for j, ss in sorted(jobs.items()):
        obs, stats, dt = res[j]
        funcs.update(stats.get('funcs', ()))
        helper = get_tasks(j[0], j[1])[j[2]].method in CONVENTIONS
        exits += stats.get('exits', 0)
        branches += stats.get('branches', 0)
        seen_ok = False
        for o in obs:
            if o.kind == 'analysis':
                n['unk'] += 1
                unk.append(o)
                continue
            if not any(s.counts(o) for s in ss):
                continue
            n[o.verdict] += 1
            kinds[o.kind] += 1
            if o.verdict == 'bad':
                (hbad if helper else bad).append(o)
            elif o.verdict == 'unk':
                unk.append(o)
            elif not seen_ok and len(samples) < 12:
                seen_ok = True
                samples.append('%s.%s[%s] %s: holds on the path %s' % (o.cls, o.method, o.variant, o.kind, path(o.trace)))
    # a private helper that departs from its usual contract breaks a property
    # only if the public methods calling it do not provably hold without it
    if hbad and (bad or unk):
        bad = bad + hbad
    elif hbad:
        n['bad'] -= len(hbad)
        n['helpers'] = 0
    total = sum(n.values())
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': total, 'discharged': n['ok'], 'undecided': n['unk'], 'violated': n['bad'],
            'obligations_by_kind': dict(kinds),
            'methods_analysed': sorted({'%s.%s' % (j[1], get_tasks(j[0], j[1])[j[2]].method) for j in jobs}),
            'tasks': len(jobs), 'exits_checked': exits, 'branches_seen': branches,
            'functions_interpreted': sorted(funcs),
            'helper_contracts_verified': {c: list(v) for c, v in _verified.items()},
            'undecided_list': sorted({'%s.%s[%s] %s: %s' % (o.cls, o.method, o.variant, o.kind, o.why[:160]) for o in unk})[:40],
            'checker_cmd': 'python3 -m sa.main %s' % pid,
            'trusted_base': 'the analyser in /verif/sa (its models of built-in list, dict, set, bisect, itertools operations and its affine '
                            'domain), the entry invariant stated in DESIGN.md, and the assumptions listed there (total order, stable keys, '
                            'equal values have equal keys, load factor at least 4)',
            'samples': samples,
        },
        'wall_s': round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rc = 0
    if total == 0 or n['ok'] == 0 and not bad:
        print('ANALYSIS BROKEN: no obligation of %s was decided' % pid)
        for o in unk[:10]:
            print('  ', o)
        rc = 2
    if bad:
        rp = os.path.join(HERE, 'evidence', 'violation-%s.txt' % pid)
        lines = []
        seen = set()
        for o in bad:
            k = (o.cls, o.method, o.kind, o.why)
            if k in seen:
                continue
            seen.add(k)
            lines.append('%s.%s[%s] (%s): %s\n    path: %s' % (o.cls, o.method, o.variant, o.kind, o.why, path(o.trace)))
        with open(rp, 'w') as f:
            f.write('property %s\n' % pid + '\n'.join(lines) + '\n')
        for l in lines[:8]:
            print(l)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        rc = 1
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d violated; %d tasks, %d exits, %.1f s' % (
        pid, total, n['ok'], n['unk'], n['bad'], len(jobs), exits, time.time() - t0))
    return rc


def path(trace):
    return ' '.join('%s:%s' % (l, 'T' if b else 'F') for l, b in (trace or ())[-14:]) or '(straight)'


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
