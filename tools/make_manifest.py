"""Write /verif/MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pyvc.report import Proof
BOUNDED = ('Bounded check: contracts evaluated on the real code for generated inputs (about 20 s on 8 cores); no '
           'violation within the explored cases, nothing is proved.')
PROOF = ('Every obligation that the verifier generates from the contracts and the current source is discharged by z3 for all '
         'inputs (functions under contract, back end, solver time and assumptions: evidence file). Trusted: the verifier pyvc with '
         'its axioms of finite sets and multisets, z3, the semantics of Python builtins. Functions outside of its reach are '
         'listed as bounded_only and only run on generated inputs, as is everything else as a second look.')
TECH = 'contracts on the real functions, verified deductively (symbolic execution of the source, obligations discharged by z3)'
NA = {
    'C21': 'The property does not hold for atoms by design (Atom.__lt__ compares values of one type by value and others by '
           'repr, which is not transitive), and no small repair exists; a contract of a total order cannot be discharged.',
    'C22': 'LaTeX and HTML output is a presentation format whose exact text is not specified anywhere; there is no '
           'mathematical postcondition that contracts could state without copying the implementation.',
}
checks = []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    i = json.loads(l)['id']
    if i in NA:
        continue
    pf = Proof(i).keys
    checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s --tier quick' % i,
                   'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
                   'technique': TECH if pf else 'contracts evaluated on the real code (bounded)',
                   'level': 'proof' if pf else 'exploration',
                   'level_note': PROOF if pf else BOUNDED})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()]}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
