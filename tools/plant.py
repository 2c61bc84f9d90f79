#!/usr/bin/env python3
"""tools/plant.py SPEC.py ...   build seeded/<id> from a spec, and confirm it.

A spec defines ID, PROPERTY, EDITS [(file, old, new)...], DEMO (python source), NEEDS, BREAKS.
Confirmation in a scratch copy: the patch applies, stable tests pass, demo is 0 clean and nonzero patched.
Then (in /repo, undone afterwards) the property's check is run against the patch.
"""
import json, os, shutil, subprocess as sp, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the patch; run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
root=$PWD
. /opt/vp/env.sh
export PYTHONPATH=$root:/opt/vp/compat
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
cd "$W"
timeout 280 /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, cwd, **kw):
    return sp.run(cmd, cwd=cwd, shell=True, stdout=sp.PIPE, stderr=sp.STDOUT, text=True, **kw)


def tests(root):
    out = tempfile.mktemp(suffix='.xml')
    sh('. /opt/vp/env.sh; export PYTHONPATH=%s:/opt/vp/compat; /opt/venv/bin/python -m pytest -q -W ignore --tb=line '
       '-p no:cacheprovider --timeout=300 --continue-on-collection-errors -n 8 --dist loadfile -o junit_family=xunit2 '
       '--junitxml=%s openmdao mpitest' % (root, out), root)
    js = out + '.json'
    sh('/usr/bin/python3 /opt/vp/results.py %s junit:%s' % (js, out), root)
    r = json.load(open(js))
    os.remove(js), os.remove(out)
    ps = set(r['passed']) if isinstance(r.get('passed'), list) else {k for k, v in r.items() if v == 'passed'}
    return [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t not in ps]


def main(spec):
    ns = {}
    exec(open(spec).read(), ns)
    d = os.path.join(V, 'seeded', ns['ID'])
    tmp = tempfile.mkdtemp(prefix='plant')
    root = os.path.join(tmp, 'repo')
    try:
        sh('cp -a /repo %s' % root, '/')
        sh('git checkout -q -- . && git clean -fdq', root)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/demo.py', 'w').write(ns['DEMO'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
                  open(d + '/meta.json', 'w'), indent=1)
        r = sh('bash %s/demo.sh' % d, root)
        ok = r.returncode == 0
        print(ns['ID'], 'demo clean:', r.returncode, '' if ok else r.stdout[-1500:])
        for f, old, new in ns['EDITS']:
            p = os.path.join(root, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(ns['ID'], 'edit matches %d times in %s: %s' % (s.count(old), f, old[:80]))
                shutil.rmtree(d)
                return False
            open(p, 'w').write(s.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git diff', root).stdout)
        r = sh('bash %s/demo.sh' % d, root)
        ok = ok and r.returncode != 0
        print(ns['ID'], 'demo patched:', r.returncode, r.stdout[-400:].strip().replace('\n', ' | '))
        miss = tests(root) if ok else ['-']
        print(ns['ID'], 'tests missing:', miss[:5])
        ok = ok and not miss
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if not ok:
        print(ns['ID'], 'NOT KEPT')
        shutil.rmtree(d)
        return False
    print(ns['ID'], 'kept;', *check(ns['ID']))
    return True


def check(i):
    d = os.path.join(V, 'seeded', i)
    p = json.load(open(d + '/meta.json'))['property']
    if not os.path.exists(os.path.join(V, 'mc/checks/%s.py' % p.lower())):
        return 'no check yet',
    assert not sh('git status --porcelain', '/repo').stdout.strip()
    r = sh('git apply %s/patch.diff' % d, '/repo')
    try:
        assert r.returncode == 0, r.stdout
        r = sh('./check %s' % p, V)
    finally:
        sh('git checkout -q -- .', '/repo')
    return 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=%s' % p in r.stdout else 'MISSED', r.stdout[-300:]


if __name__ == '__main__':
    if sys.argv[1] == 'check':
        for i in sys.argv[2:] or sorted(os.listdir(os.path.join(V, 'seeded'))):
            print(i, *check(i))
    else:
        for s in sys.argv[1:]:
            main(s)
