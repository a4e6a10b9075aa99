"""seeds.py [ID..]: run the check of each planted change against a scratch copy with the change."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

PY = '/opt/venv/bin/python'
ids = sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
for i in ids:
    d = '/verif/seeded/' + i
    if i.startswith('C') and i[1:].isdigit():
        continue
    pid = json.load(open(d + '/meta.json'))['property']
    tmp = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        repo = tmp + '/repo'
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('__pycache__'))
        r = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=repo, capture_output=True, text=True)
        if r.returncode:
            print(i, pid, 'patch does not apply', r.stderr[:200])
            continue
        r = subprocess.run([PY, '/verif/check.py', pid], cwd='/verif', capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=repo, VERIF_EVIDENCE=tmp + '/ev'))
        out = [l.strip() for l in (r.stdout + r.stderr).splitlines() if 'VIOLATION' not in l]
        print('%-28s %s rc %d %s' % (i, pid, r.returncode, out[0][:130] if out else ''), flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
