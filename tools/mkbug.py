"""mkbug.bug(id, property, file, [(old, new), ...], needs, breaks, demo): write /verif/seeded/<id> from a textual edit of /repo"""
import json, os, subprocess

REPO = os.environ.get('VERIF_REPO', '/repo')
SH = '''#!/bin/bash
# run with cwd /repo: exit 0 when the property holds
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def bug(id, prop, edits, needs, breaks, demo):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    assert not subprocess.check_output(['git', '-C', REPO, 'status', '--porcelain']), 'dirty'
    try:
        for f, old, new in edits:
            p = REPO + '/' + f
            s = open(p).read()
            assert s.count(old) == 1, (id, f, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', REPO, 'diff'], text=True))
    finally:
        subprocess.check_call(['git', '-C', REPO, 'checkout', '-q', '--', '.'])
    open(d + '/demo.sh', 'w').write(SH)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write(demo.lstrip())
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
