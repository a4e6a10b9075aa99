"""plant.py SPEC.py [ID..]: make /verif/seeded/<id> from a specification, after confirming it in a scratch copy of /repo
(builds, passes the stable tests, the demonstration fails with the change and passes without); then run the check on it."""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

PY = '/opt/venv/bin/python'
SH = '''#!/bin/bash
# run with cwd = the repository; exit 0: the property holds here
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES= MPLBACKEND=Agg
exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def tests(repo):
    x = os.path.join(repo, 'junit.xml')
    env = dict(os.environ, PYTHONPATH=repo + '/src', PYTHONDONTWRITEBYTECODE='1', TF_CPP_MIN_LOG_LEVEL='3', CUDA_VISIBLE_DEVICES='',
               MPLBACKEND='Agg', PYTHONHASHSEED='0')
    sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors', '-o',
        'junit_family=xunit2', '--junitxml=' + x, 'tests'], repo, env=env)
    import xml.etree.ElementTree as ET
    ok = set()
    for t in ET.parse(x).getroot().iter('testcase'):
        if not any(c.tag in ('failure', 'error', 'skipped') for c in t):
            ok.add('%s::%s' % (t.get('classname'), t.get('name')))
    return [t for t in STABLE if t not in ok]


def one(s):
    tmp = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    try:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('__pycache__'))
        out = os.path.join('/verif/seeded', s['id'])
        stage = os.path.join(tmp, 'seed')
        os.makedirs(stage)
        open(stage + '/demo.sh', 'w').write(SH)
        open(stage + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        r = sh(['bash', stage + '/demo.sh'], repo)
        if r.returncode != 0:
            return s['id'], 'demo fails on the unchanged tree: ' + (r.stdout + r.stderr)[-600:]
        for f, old, new in s['edits']:
            p = os.path.join(repo, 'src/sims_pars', f)
            t = open(p).read()
            if t.count(old) != 1:
                return s['id'], 'text occurs %d times in %s: %r' % (t.count(old), f, old)
            open(p, 'w').write(t.replace(old, new))
        # lines that the fix commits added do not count
        d = sh(['git', 'diff'], repo).stdout
        for f in {e[0] for e in s['edits']}:
            base = sh(['git', 'show', 'a8906e5:src/sims_pars/' + f], repo).stdout.splitlines()
            for l in d.splitlines():
                if l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] not in base and len(s['edits']) == 1:
                    return s['id'], 'changes a line of a fix commit: ' + l
        r = sh([PY, '-m', 'compileall', '-q', '-f', 'src'], repo)
        if r.returncode:
            return s['id'], 'does not compile ' + r.stdout
        miss = tests(repo)
        if miss:
            return s['id'], 'fails tests %s' % miss[:4]
        r = sh(['bash', stage + '/demo.sh'], repo)
        if r.returncode == 0:
            return s['id'], 'demo passes with the change'
        last = (r.stdout + r.stderr).strip().splitlines()[-1:]
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(stage, out)
        open(out + '/patch.diff', 'w').write(d)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        msg = 'planted (%s)' % ''.join(last)[:120]
        if os.path.exists('/verif/checks/%s.py' % s['property'].lower()):
            ev = os.path.join(tmp, 'ev')
            r = sh([PY, '/verif/check.py', s['property']], '/verif', env=dict(os.environ, VERIF_REPO=repo, VERIF_EVIDENCE=ev))
            msg += ' | check: rc %d %s' % (r.returncode, [l.strip()[:150] for l in (r.stdout + r.stderr).splitlines() if 'VIOLATION' not in l][:1])
        return s['id'], msg
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    specs = runpy.run_path(sys.argv[1])['SEEDS']
    if sys.argv[2:]:
        specs = [s for s in specs if s['id'] in sys.argv[2:]]
    with ThreadPoolExecutor(2) as ex:
        for i, m in ex.map(one, specs):
            print(i, m, flush=True)
