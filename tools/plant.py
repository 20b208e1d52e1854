"""Plant a bug (run by hand): verifies it and writes /verif/seeded/<id>/.

usage: plant.py FILE.py    where FILE.py defines BUGS = [dict(id=, property=, edits=[(file, old, new)], demo=, needs=, breaks=)]
"""
import json
import os
import runpy
import subprocess
import sys

REPO = '/tmp/w/prepo'        # a scratch copy, made anew every time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(*args, **kw):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC', LC_ALL='C.UTF-8', PYTHONPATH=REPO, VERIF_REPO=REPO)
    return subprocess.run(args, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def restore():
    sh('rsync', '-a', '--delete', '--exclude=__pycache__', '/repo/', REPO + '/')
    sh('git', '-C', REPO, 'checkout', '--', '.')


def plant(b):
    restore()
    d = os.path.join(ROOT, 'seeded', b['id'])
    os.makedirs(d, exist_ok=True)
    with open(d + '/demo.py', 'w') as f:
        f.write(b['demo'].lstrip('\n'))
    with open(d + '/demo.sh', 'w') as f:
        f.write('#!/bin/bash\n# Run in the root of HTTPolice, after building.\nexec %s "$(dirname "$0")/demo.py"\n' % PY)
    os.chmod(d + '/demo.sh', 0o755)
    with open(d + '/meta.json', 'w') as f:
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, f, indent=1)
        f.write('\n')
    r = sh('bash', d + '/demo.sh', cwd=REPO)
    if r.returncode != 0:
        return 'DEMO FAILS ON CLEAN TREE: ' + r.stdout[-800:]
    try:
        for name, old, new in b['edits']:
            path = os.path.join(REPO, name)
            text = open(path).read()
            if text.count(old) != 1:
                return 'EDIT of %s: %d occurrences of %r' % (name, text.count(old), old)
            # Lines must be those of the original repository.
            line = text[:text.index(old)].count('\n') + 1
            n = old.count('\n') + 1
            blame = sh('git', '-C', REPO, 'blame', '-s', '-L%d,+%d' % (line, n), 'HEAD', '--', name).stdout
            print(blame, end='') if any(not x.startswith('^') for x in blame.splitlines()) else None
            open(path, 'w').write(text.replace(old, new))
        diff = sh('git', '-C', REPO, 'diff').stdout
        with open(d + '/patch.diff', 'w') as f:
            f.write(diff)
        r = sh('bash', d + '/demo.sh', cwd=REPO)
        if r.returncode == 0:
            return 'DEMO PASSES WITH THE BUG'
        t = sh(PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--no-cov', '--timeout=300', '-x', cwd=REPO)
        if t.returncode:
            return 'TESTS FAIL: ' + t.stdout[-600:]
        c = sh(sys.executable, ROOT + '/run.py', b['property'])
        line = [x for x in c.stdout.splitlines() if x.startswith('VIOLATION')]
        return ('caught' if c.returncode == 1 and line else 'MISSED (%d)' % c.returncode) + ' | demo: ' + \
            (r.stdout.strip().splitlines() or ['?'])[-1][:150] + ' | ' + c.stdout[:200].replace('\n', ' ')
    finally:
        restore()


if __name__ == '__main__':
    only = sys.argv[2:]
    for bug in runpy.run_path(sys.argv[1])['BUGS']:
        if not only or bug['id'] in only:
            print(bug['id'], bug['property'], plant(bug), flush=True)
