"""Helper for planting bugs: writes /verif/seeded/<id>/ from textual edits of /repo's HEAD."""
import json, os, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# cwd: the repository, built.  Exit 0 when the behaviour is right.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -O1 -w -Iinclude -I. -o "$T/demo" "$D/demo.c" .libs/libpbc.a -lgmp -lm || exit 2
cd "$T" && timeout 250 ./demo
'''
def seed(id, prop, edits, needs, breaks, demo_c=None, demo_sh=None):
    d = f'{V}/seeded/{id}'; os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(dir='/tmp')
    subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w + '/w', 'HEAD'], check=True)
    try:
        for f, old, new in edits:
            p = f'{w}/w/{f}'; s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', w + '/w', 'diff'], stdout=subprocess.PIPE, check=True).stdout
        open(d + '/patch.diff', 'wb').write(diff)
    finally:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', w + '/w']); shutil.rmtree(w)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1)
    if demo_c: open(d + '/demo.c', 'w').write(demo_c)
    open(d + '/demo.sh', 'w').write(demo_sh or DEMO_SH)
    os.chmod(d + '/demo.sh', 0o755)
