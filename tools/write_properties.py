"""Regenerates /verif/properties.jsonl (the property texts live here, once)."""
import json, os
SL='src/sortedcontainers/sortedlist.py'; SD='src/sortedcontainers/sorteddict.py'; SS='src/sortedcontainers/sortedset.py'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,
      state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
      mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=None)))
ORD="values (or keys) that have a total order and do not change while stored"
LST=[('_lists','sublists whose concatenation is the content',SL),('_maxes','last value (key) of every sublist',SL),('_keys','key of every stored value, parallel to the sublists (key lists)',SL),('_index/_offset','lazily built positional tree over sublist lengths',SL),('_len','number of stored values',SL)]
p('C01','A sorted list always iterates in ascending order',
 'After any sequence of adding, updating, removing, popping, deleting, repeating, resetting and clearing operations, iterating a sorted list (or a sorted-key list) yields its values in ascending order of value (or of key). This holds for every size, load factor and duplicate pattern, for '+ORD+'.',
 ['histories','inputs'],'every history of mutating operations over every input with a total order, every load factor',
 'The stress tests run 1000 seeded operations on floats with one load factor; they do not reach every branch combination, duplicate pattern straddling sublists, or size-dependent branch.',
 [SL],[('position search over maxes then sublist','SortedList.add, SortedKeyList.add'),('sort before chunking','SortedList.update, SortedKeyList.update'),('split and merge','_expand, _delete')],LST,['iter(sl)','list(sl)'])
p('C02','A sorted list holds exactly the values added and not removed',
 'The content of a sorted list is exactly the multiset of values that were added and not since removed: no operation loses, duplicates, invents or replaces a value. The reported length always equals the number of values iteration yields.',
 ['histories','inputs'],'every history of operations, every iterable argument (including itself, one-shot iterators, empty ones), every load factor',
 'Tests compare content on a handful of sizes; split/merge/bulk-rebuild branches are chosen by size relations the tests sample sparsely.',
 [SL],[('element moves in split and merge','_expand, _delete'),('bulk rebuild','update, __delitem__, __imul__, _reset'),('length bookkeeping','_len updates in every mutator')],LST,['list(sl)','len(sl)'])
p('C03','Positional access never uses a stale position index',
 'Whatever mix of mutations and positional lookups came before, positional operations (indexing, slicing, bisecting, counting, index lookup, pop, positional deletion) answer from the current content. A lookup performed between two mutations never changes what a later positional operation answers.',
 ['histories'],'every interleaving of mutations with operations that build or use the positional cache',
 'Whether the cache exists when a given branch runs depends on the history; tests interleave only a few patterns.',
 [SL],[('drop the index on structural change','_expand, _delete, update, clear'),('adjust every node on the leaf-to-root path','_expand, _delete'),('build on demand','_loc, _pos, _build_index')],LST,['sl[i]','sl.bisect_left(v)','sl.index(v)'])
p('C04','Lookup and removal by value find exactly the equal values',
 'Membership testing answers true exactly when an equal value is stored; discard and remove delete exactly one stored value equal to the argument when there is one and otherwise change nothing (remove raises ValueError). count returns the number of stored values equal to the argument, and index returns the first position in the requested range holding an equal value or raises ValueError.',
 ['inputs','histories'],'every content, load factor, argument (smaller than, larger than, between, equal to stored values; equal values or keys spanning several sublists) and start/stop',
 'Boundary cases (argument above every sublist maximum, runs of equal keys crossing sublist borders, empty list) multiply with method and class; tests sample some.',
 [SL],[('bisect then equality test','SortedList.__contains__, discard, remove, index, count'),('scan of the equal-key run','SortedKeyList.__contains__, discard, remove, index, count')],LST,['v in sl','sl.remove(v)','sl.count(v)','sl.index(v)'])
p('C05','Bisecting returns the exact left or right insertion point',
 'bisect_left returns the number of stored values strictly smaller than the argument, and bisect_right (also called bisect) the number of stored values not greater than it; the key variants say the same about keys. This holds for every argument including ones outside the stored range, and on an empty container.',
 ['inputs','histories'],'every content, duplicate run, load factor and probe value',
 'Tests probe random floats (no duplicates) and small ranges; left/right differ only on duplicates and run borders.',
 [SL],[('bisect maxes, bisect sublist, convert to position','SortedList.bisect_left/right, SortedKeyList.bisect_key_left/right'),('position conversion','_loc')],LST,['sl.bisect_left(v)','sl.bisect_right(v)','skl.bisect_key_left(k)'])
p('C06','Range iteration yields exactly the values within the bounds',
 'irange yields exactly the stored values between minimum and maximum, honouring each inclusive flag and treating a missing bound as unbounded, in ascending order or, with reverse, in exactly the opposite order. irange_key does the same by key.',
 ['inputs','histories'],'every pair of bounds (absent, equal, crossed, outside the content), every inclusive pair, both directions, every sublist layout',
 'Four flag combinations times bound presence times sublist layout times direction; tests iterate one or two layouts.',
 [SL],[('bound to position with left/right bisect per flag','SortedList.irange, SortedKeyList.irange_key, SortedKeyList.irange'),('segment chaining','_islice')],LST,['sl.irange(a,b,inclusive,reverse)','skl.irange_key(a,b)'])
p('C07','Reads by position return exactly the elements at those positions',
 'Indexing, slicing, islice, forward and reverse iteration agree: each returns exactly the elements that a plain Python list with the same ordered content would give for the same index, slice or direction, including negative indexes, empty slices and slices spanning any number of sublists.',
 ['inputs','histories'],'every index and slice, every content and sublist layout',
 'Slices crossing zero, one, two or many sublist borders with all sign and step combinations are sampled only.',
 [SL],[('fast paths and tree descent','__getitem__, _pos'),('segment chaining','islice, _islice, __iter__, __reversed__')],LST,['sl[i]','sl[a:b:c]','sl.islice(a,b,reverse)','reversed(sl)'])
p('C08','Deletion by position removes exactly those positions',
 'Deleting an index or a slice, or popping an index, removes exactly the elements a plain Python list with the same ordered content would lose, returns (pop) exactly the removed element, and leaves every other element in place.',
 ['inputs','histories'],'every index and slice (all steps and signs), every content, layout and load factor',
 'The slice deletion strategy depends on ratios of slice length to size and on step; tests sample them.',
 [SL],[('positional deletion','__delitem__, pop'),('removal and merge','_delete')],LST,['del sl[i]','del sl[a:b:c]','sl.pop(i)'])
p('C09','A sorted-key list orders and searches by key only',
 'A sorted-key list never compares two values for order: placement, bisecting, ranges and searches order by the key function of the value only, applied exactly where a value (and not already a key) is given. Value equality is used only to tell values with equal keys apart.',
 ['inputs','histories'],'every key function and values that are comparable only through the key, every operation',
 'Tests mostly use ints whose natural order and key order are both defined, so a value/key mix-up can go unnoticed.',
 [SL],[('key taken once per value argument','SortedKeyList.*'),('parallel key sublists','_keys updates in add, _expand, _delete, update, clear')],LST,['skl.add(v)','skl.irange(a,b)','skl.bisect(v)'])
p('C10','Values that order equally keep their insertion order',
 'Among values that compare (or whose keys compare) equal, iteration yields those stored earlier before those stored later, whether they were added one by one or in bulk, for small and large bulk updates alike.',
 ['histories','inputs'],'every history of add/update with order-equal but distinguishable values',
 'Release 2.3.0 fixed exactly this in one bulk branch; tests cover that single case.',
 [SL],[('insert to the right of equals','add'),('stable sort with the stored values first','update')],LST,['list(skl)'])
p('C11','A sorted dict iterates exactly the keys it maps',
 'After any sequence of operations on a sorted dict or through its views, the keys yielded by iteration are exactly the keys for which lookup succeeds, each once and in sorted order, and the length equals their number.',
 ['histories','inputs'],'every history of item assignment, deletion, setdefault, update, merge, pop, popitem, clear and deletion through views',
 'Two stores must change together on every path; size-dependent update strategies and view deletions are sampled by few tests.',
 [SD],[('paired updates of the mapping and the key list','__setitem__, __delitem__, setdefault, update, pop, popitem, clear, view deletion')],
 [('dict storage','the mapping itself',SD),('_list','sorted list of the keys',SD)],['iter(sd)','k in sd','len(sd)'])
p('C12','A sorted set iterates exactly its members',
 'After any sequence of operations on a sorted set, iteration, indexing and bisecting see exactly the members that membership testing and length report, each once and in sorted order.',
 ['histories','inputs'],'every history of add, discard, remove, pop, positional deletion, clear and bulk or in-place set operations',
 'Two stores must change together on every path, with bulk strategies chosen by size ratios.',
 [SS],[('paired updates of the member set and the sorted list','add, discard, remove, pop, __delitem__, clear, *_update, _fromset')],
 [('_set','member set',SS),('_list','sorted list of members',SS)],['iter(ss)','v in ss','len(ss)','ss[i]'])
p('C13','A failing operation leaves the container valid',
 'When an operation fails because a value cannot be compared or hashed, a key function or an argument iterable raises, or a member or position does not exist, the container stays valid: iteration, length, membership and positional access still agree with one another, and no previously stored value is lost. A failing single-item operation leaves the content unchanged.',
 ['inputs','fault_sequences'],'every operation and every point at which user-supplied code (comparison, hash, key function, iterator) can raise',
 'Tests check the raised exception in a few cases but hardly ever the container afterwards, and the failing point depends on the data.',
 [SL,SD,SS],[('evaluate fallible steps before the first write','add, update, setdefault, __setitem__, *_update'),('order of the paired writes','SortedDict and SortedSet mutators')],LST,['container after the exception'])
p('C14','Reading operations never change a container or their arguments',
 'Lookups, membership tests, iteration, slicing, counting, bisecting, comparison, copying, representation, pickling and the non-in-place operators and set methods leave the content of the container and of every argument unchanged. Mutating operations never modify their arguments either.',
 ['inputs','histories'],'every non-mutating operation and every argument, including a container passed to its own method',
 'A hidden write shows only in later operations; tests rarely compare operands before and after.',
 [SL,SD,SS],[('fresh accumulators','reduce(iadd, self._lists, []) and friends'),('new result objects','__add__, __mul__, __or__, set operations')],LST,['operands after the call'])
p('C15','Results and arguments never share storage with a container',
 'Lists returned by slicing, copies, and results of operators are independent of the container: changing one never changes the other. A container never adopts a caller-supplied collection as its own storage, so changing that collection later does not affect the container.',
 ['histories'],'every producer of a list or container and every operation taking a collection, followed by any mutation of either side',
 'Sharing appears only when a particular branch (one sublist, whole slice, already sorted input, same type) is taken and the other side is mutated afterwards.',
 [SL,SD,SS],[('fresh list construction','__getitem__, __add__, __mul__, __reduce__, copy'),('copying set results','_fromset callers, __init__')],LST,['mutation after slicing, copying, constructing'])
p('C16','Derived containers keep the type and the sort key',
 'Copying, concatenating, repeating, merging, and combining sorted lists, dicts and sets with the set operators and methods, with the sorted container on either side, produces a container of the same class ordered by the same key function. The key attribute of the result equals the key of the original.',
 ['inputs','programs'],'every deriving operation, every key function (including none), every subclass keeping the constructor signature',
 'Key functions are dropped silently: with ascending natural keys the result looks right.',
 [SL,SD,SS],[('constructor calls through self.__class__ and self._key','copy, __add__, __mul__, __or__, __ror__, _fromset callers, union')],[],['type(result)','result.key'])
p('C17','In-place operators and exposed methods act on the live container',
 'In-place operators mutate and return the very same container object, and in-place set methods return it too. Every method a sorted dict or sorted set exposes from its underlying collections keeps describing the current content after any later mutation, because the underlying collections are never replaced.',
 ['histories'],'every mutation followed by a call through a previously obtained or instance-bound method',
 'Rebinding an underlying collection is invisible until a bound method is used after that particular mutation.',
 [SL,SD,SS],[('methods bound once in the constructor','SortedDict.__init__, SortedSet.__init__'),('in-place update of the member set and list','SortedSet.*_update, clear'),('return self','__iadd__, __imul__, __ior__, __iand__, __isub__, __ixor__')],
 [('_list','bound once per instance',SD),('_set','bound once per instance',SS)],['ss.issubset(x) after ss ^= y','x is y after op='])
p('C18','Operations that would break the order are always refused',
 'Assigning to a position or slice, appending, extending, inserting and reversing always raise NotImplementedError on sorted lists and sorted-key lists, for every argument, and change nothing. Comparing or combining with an unsupported operand type is declined (NotImplemented) rather than answered.',
 ['inputs'],'every argument and every content, both list classes',
 'Tests call each once with one argument.',
 [SL,SD,SS],[('explicit overrides of the mutable-sequence mixins','__setitem__, append, extend, insert, reverse'),('NotImplemented returns','comparers, SortedDict.__or__/__ror__')],[],['sl[0]=x','sl.append(x)','sl == 5'])
p('C19','No sublist ever outgrows twice the load factor',
 'However many values are added, one by one or in bulk, no internal run of values exceeds twice the load factor and none is left empty, so that single-item operations touch a bounded number of stored values. The configured load factor stays in force until it is reset.',
 ['histories','inputs'],'every history of insertions and deletions, every load factor',
 'Imbalance needs many operations along one branch (appending at the end, merges) with the default load of 1000; tests use small loads.',
 [SL],[('split when above twice the load','_expand called after every growth'),('merge then split','_delete'),('chunking by load','update')],LST,['_check()','operation cost'])
p('C20','Dict views are live and index in key order',
 'Key, item and value views always reflect the current content of their sorted dict, index and slice in key order with the item or value belonging to that key, and deleting through a view removes exactly the items at those positions from the dict.',
 ['histories','inputs'],'every mutation of the dict between obtaining and using a view, every index and slice',
 'A view that snapshots, or pairs keys with values by a different order, agrees with the dict in simple tests.',
 [SD],[('views hold only the mapping and ask its key list each time','SortedKeysView, SortedItemsView, SortedValuesView'),('deletion through views','_view_delitem')],[('_list','sorted keys of the mapping',SD)],['sd.keys()[i]','sd.items()[a:b]','del sd.values()[i]'])
p('C21','Sorted dict items keep the right value for each key',
 'A sorted dict associates each key with the value most recently stored for it: update and merge let later pairs win (the right operand in |), keyword arguments are never dropped, and setdefault never overwrites. pop, popitem and peekitem return the value (pair) belonging to that key, and honour the default.',
 ['histories','inputs'],'every mix of positional and keyword arguments, every size relation, repeated keys, absent and None defaults',
 'Update has three strategies chosen by sizes and argument kind; tests check values in few of the combinations.',
 [SD],[('dict.update argument forwarding','SortedDict.update, __init__'),('operand order','__or__, __ror__'),('presence test before default','setdefault, pop')],[],['sd[k]','sd.pop(k, d)','a | b'])
p('C22','Sorted set operations compute the named set function',
 'Union, intersection, difference and symmetric difference, as methods over any number of iterables, as binary operators with the sorted set on either side, and as in-place forms, contain exactly the members that the same operation on plain Python sets gives. In-place and copying forms of one operation agree.',
 ['inputs'],'every operand (sets, sorted sets, lists with repeats, one-shot iterators, the set itself), every size ratio',
 'Bulk and incremental strategies depend on size ratios; operator aliases are easy to cross-wire for rarely used reflected forms.',
 [SS],[('delegation to the built-in set','difference, intersection, symmetric_difference, union and *_update'),('operator aliases','__and__, __rand__, __or__, __ror__, __sub__, __rsub__, __xor__, __rxor__, __iand__, __ior__, __isub__, __ixor__')],[],['a - b','a ^= b','a.union(b, c)'])
p('C23','Comparisons follow sequence and set semantics',
 'The six comparisons of a sorted list with any sequence give the lexicographic answer a Python list would give, and the six comparisons of a sorted set with any set give the equality, subset and superset answer a Python set would give. An operand of another kind is declined.',
 ['inputs'],'every pair of operands: prefixes, equal lengths, different lengths, other sequence and set types',
 'Six operators times prefix/length/first-difference cases times operand types.',
 [SL,SS],[('comparison factory','SortedList.__make_cmp, SortedSet.__make_cmp')],[],['sl < [1,2]','ss <= {1,2}'])
p('C24','Missing members and positions raise the documented exception',
 'Removing or locating an absent value in a sorted list raises ValueError; removing an absent member of a sorted set or an absent key of a sorted dict (without default) raises KeyError; an out-of-range position raises IndexError, and popping an item from an empty sorted dict raises KeyError. No other exception type escapes in these cases and present members never raise.',
 ['inputs','histories'],'every content (including empty), every absent value relative to the stored ones, every out-of-range index',
 'Several early-exit branches per method must all raise the same type; tests reach some of them.',
 [SL,SD,SS],[('explicit raises on every miss branch','remove, index, pop, _pos, popitem, __delitem__')],[],['sl.remove(v)','sd.pop(k)','ss.remove(v)','sl[i]'])
p('C25','Pickling and deep copying rebuild an equal container',
 'Pickling and unpickling or deep copying any sorted container yields a container of the same class with the same content, the same values for the same keys, and the same key function.',
 ['inputs','configurations'],'every container, content, key function and subclass keeping the constructor signature',
 'Tests round-trip one small instance per type.',
 [SL,SD,SS],[('constructor arguments recorded for reconstruction','__reduce__ of SortedList, SortedKeyList, SortedDict, SortedSet')],[],['pickle.loads(pickle.dumps(x))','copy.deepcopy(x)'])
p('C26','Representations are faithful and survive self-reference',
 'The repr of a sorted container names its class, shows its content in iteration order and its key function when it has one, in the form of a constructor call; a container that contains itself is represented without infinite recursion.',
 ['inputs'],'every content, key function, subclass and self-containing structure',
 'Tests print a few instances.',
 [SL,SD,SS],[('recursion guard and type name','__repr__ of the four classes')],[],['repr(x)'])
p('C27','Positions map to elements exactly for every tree shape',
 'Converting between a position and the place of an element is exact in both directions for every number of sublists and every combination of sublist lengths.',
 ['inputs'],'every vector of sublist lengths, of any number of sublists, and every position',
 'The tree shape changes with the number of sublists (powers of two and their neighbours); tests reach a few dozen shapes.',
 [SL],[('tree construction','_build_index'),('ascent and descent','_loc, _pos')],LST,['sl[i] for all i','sl.bisect_left(sl[i])'])
p('C28','Single-item operations run in sublinear time',
 'Adding, removing and locating one value takes time that grows no faster than logarithmically (amortised, for a fixed load factor) with the number of stored values.',
 ['inputs','histories'],'every content size and history',
 'Unit tests do not measure growth.',
 [SL],[('two-level search','bisect over maxes and one sublist'),('lazy positional tree','_build_index')],LST,['wall time against size'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import sys
for x in P:
    assert len(x['title'])<=80, x['title']
print(len(P))
