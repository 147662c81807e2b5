"""writes MANIFEST.json and properties.jsonl from the property list and the harness modules present"""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import props_src  # noqa
NA = {
    'C31': 'the logger name is taken from the interpreter call stack and the logging registry; there is no input, '
           'schedule or arithmetic to make symbolic, so solver-based checking adds nothing over one concrete call',
}
PENDING = 'no check has been built for it yet'
checks, na = [], []
for p in props_src.P:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'ellsym', 'props', i + '.py')) and i not in NA:
        checks.append({
            'property': i,
            'quick_cmd': './run.sh %s --tier quick' % i,
            'thorough_cmd': './run.sh %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'bounded symbolic execution of the Python source; rational normal forms and Z3 (QF_NRA) decide '
                         'every path obligation, counterexamples replayed on the real code',
            'level': 'model_checking',
            'level_note': 'Decided for all real input values on all explored paths within the stated shapes, dimensions '
                          'and value ranges; exact real arithmetic stands for floating point (equalities up to a '
                          'tolerance); the numpy/scipy stand-ins are trusted as documented and validated against the '
                          'real libraries at one point of every path. Undecided obligations, paths left unexplored and '
                          'paths outside the encodable fragment are counted in the evidence and are not claimed.',
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, PENDING)})
m = {'version': 1, 'setup_cmd': './run.sh --selftest', 'checks': checks, 'not_applicable': na,
     'notes': 'Checks read /repo/products at run time; no hooks are needed in /repo.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for x in props_src.P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x) + '\n')
print(len(checks), 'checks', len(na), 'not applicable')
