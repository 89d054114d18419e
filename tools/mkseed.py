"""Helper to write a planted bug: mkseed.seed(id, property, edits, needs, breaks, demo) with edits = [(file, old, new), ...]."""
import json, os, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DEMO = '''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
cd /repo && PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def seed(id, prop, edits, needs, breaks, demo):
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='mkseed.', dir='/tmp')
    try:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'], check=True)
        subprocess.run(f'git -C /repo archive HEAD | tar -x -C {w}', shell=True, check=True)
        subprocess.run('git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x', shell=True, cwd=w, check=True)
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=w, capture_output=True, text=True, check=True).stdout
        assert diff
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    finally:
        shutil.rmtree(w)
    # bash "$(dirname "$0")" has to be absolute before the cd
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO.replace('cd /repo && ', 'D=$(cd "$(dirname "$0")" && pwd); cd /repo && ').replace('$(dirname "$0")/demo.py', '$D/demo.py'))
    open(os.path.join(d, 'demo.py'), 'w').write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    print('seeded', id)
