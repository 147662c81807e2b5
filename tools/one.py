"""run one task in-process: one.py C17 sqrtm '{"n":1}'"""
import sys, json, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
import warnings; warnings.simplefilter('ignore')
sys.setrecursionlimit(20000)
import importlib
from ellsym import harness
importlib.import_module('ellsym.props.' + sys.argv[1])
h = harness.REGISTRY[sys.argv[1]][sys.argv[2]]
r = harness.TaskRun(h, json.loads(sys.argv[3]), {'timeout': 3., 'branch_timeout': 1.5, 'npoints': 24}, 60, 1).run()
print({k: v for k, v in r.d.items() if v}, r.violations, r.need, r.diverge_notes, r.undecided_labels)
