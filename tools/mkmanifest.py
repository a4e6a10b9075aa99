"""MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'C27': 'The law of the drawn values is a fact about the scipy/numpy generators (compiled code) and about frequencies: no symbolic execution of the Python code can decide it, and sampling is another technique.',
 'C28': 'The emulator is a gpflow/TensorFlow Gaussian process trained by numerical optimisation in floating point: its code cannot be encoded for a solver.',
 'C29': 'Worker processes are created and scheduled by joblib/loky; the repository adds no synchronisation of its own, so there is nothing of its code to interleave symbolically. The sequential semantics is claimed in C17 and C19 with Parallel modelled as an in-order map.',
}
EXTRA = {}
p = os.path.join(HERE, 'tools', 'pending.json')
if os.path.exists(p):
    EXTRA = json.load(open(p))
checks, na = [], []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    d = json.loads(l)
    i = d['id']
    if os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd='/opt/venv/bin/python check.py %s --tier quick' % i,
                           thorough_cmd='/opt/venv/bin/python check.py %s --tier thorough' % i,
                           technique='bounded symbolic execution of the current Python source, decided by Z3, counterexamples replayed natively',
                           level='other',
                           level_note='For every input within the bounds of each unit (stated in the evidence) the solver shows that the '
                                      'obligations hold on the interpreted source; trusted: the interpreter and the models of built-in and '
                                      'library functions in /verif/symx, real arithmetic for floats. Solver models of every path are also '
                                      'replayed on the real code.'))
    else:
        na.append(dict(property=i, reason=NA.get(i) or EXTRA.get(i) or 'no check has been built for it yet'))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -m compileall -q symx checks >/dev/null 2>&1; true', checks=checks, not_applicable=na),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
