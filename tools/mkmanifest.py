"""Regenerates /verif/MANIFEST.json from the check modules that exist."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {'C29': 'the interleavings of real MPI ranks cannot be controlled or enumerated here: mpi4py and '
             'petsc4py are importable but starting MPI is refused in the unprivileged environment the '
             'checks run in, and its scheduling lies outside the process. (What OpenMDAO itself decides '
             'about processes -- load balancing, message order of parallel cases -- is explored with '
             'simulated communicators in C16/C17.)'}
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    path = os.path.join(ROOT, 'mc', 'checks', pid.lower() + '.py')
    if pid in NA or not os.path.exists(path):
        na.append(dict(property=pid, reason=NA.get(pid, 'check not built yet')))
        continue
    src = open(path).read()
    lev = re.search(r"^LEVEL = '(\w+)'", src, re.M).group(1)
    ns = {}
    m = re.search(r"^NOTE = (\(.*?\)|'.*?')\n(?=\S|\n)", src, re.M | re.S)
    note = eval(m.group(1)) if m else ''
    m = re.search(r"^TECH = (\(.*?\)|'.*?')\n(?=\S|\n)", src, re.M | re.S)
    tech = eval(m.group(1)) if m else ('bounded exhaustive state-space exploration of the real code '
                                       'against an independent reference model')
    checks.append(dict(property=pid, quick_cmd='./check %s' % pid,
                       thorough_cmd='./check %s --tier thorough' % pid,
                       technique=tech, level=lev, level_note=note or
                       'exhaustive within the bounds stated in the evidence rule; trusts the reference model in /verif/mc'))
json.dump(dict(version=1, setup_cmd='./check --selftest', checks=checks, not_applicable=na,
               notes='All checks run the real code of /repo under one bounded exhaustive explorer '
                     '(mc/engine.py); no hooks in /repo are needed.'),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
