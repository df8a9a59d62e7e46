"""Writes MANIFEST.json from the property table."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.props import PROPS

NOTE = ('Sound up to the models: every public method is analysed for every input, size, load factor >= 4 and internal shape '
        'from the class invariant; loops by inductive affine invariants or element-wise summaries. Only a definite contradiction '
        'on an exactly tracked path is reported; anything the domain cannot decide is counted as undecided in the evidence. '
        'Assumes a total order, stable keys, equal keys for equal values, and trusts the analyser and its models of Python built-ins.')
LIST = 'abstract interpretation of the source (trace partitioning, affine relational domain, symbolic piece tables), class-invariant induction'
SETS = 'abstract interpretation over set and map terms (truth tables on a generic element), composed with the verified list contracts'
TECH = {
    'default': LIST,
    'C03': 'typestate analysis of the positional index within an abstract interpretation of every method',
    'C09': 'abstract interpretation with key/value type separation (order comparisons on values are reported)',
    'C11': SETS, 'C12': SETS, 'C20': SETS, 'C21': SETS, 'C22': SETS,
    'C13': 'exception-path analysis: abstract interpretation of every exceptional exit against the class invariant',
    'C14': 'effect analysis: writes to the receiver and to arguments on every path of the reading operations',
    'C15': 'ownership and escape analysis on the abstract heap',
    'C16': 'dataflow of class and key into every constructed container',
    'C17': 'identity dataflow and a never-rebound field rule',
    'C18': 'abstract interpretation: every path of the refused operations ends in the required refusal',
    'C19': 'affine bounds on sublist lengths at every exit',
    'C23': 'abstract interpretation of the comparison protocols (first-mismatch position, set terms, Venn cardinalities)',
    'C24': 'exception-path analysis: which exception each path raises against the condition that makes it due',
    'C25': 'value flow through __reduce__ composed with the constructor contract',
    'C26': 'symbolic string terms of __repr__ and the recursion-guard rule',
    'C27': 'inductive level invariant of the index walks over a tree of unknown height',
}
NA = {'C28': 'asymptotic running time is a runtime quantity no sound static argument in reach bounds for this code; the structural clause in '
             'reach, bounded sublists, is property C19'}


def main():
    m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa', 'checks': [], 'not_applicable': []}
    ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    for i in ids:
        if i in PROPS:
            m['checks'].append({
                'property': i,
                'quick_cmd': 'python3 -m sa.main %s' % i,
                'thorough_cmd': 'env VERIF_TIER=thorough python3 -m sa.main %s' % i,
                'evidence_file': 'evidence/%s.json' % i,
                'technique': TECH.get(i, TECH['default']),
                'level': 'proof',
                'level_note': NOTE,
            })
        else:
            m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'not built yet')})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
