"""Entry point: run.py <PID> [--tier quick|thorough] [--replay FILE] [--part NAME] [--workers N]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def reexec():
    # The environment's Python has HTTPolice (from /repo) and its dependencies.
    py = '/opt/venv/bin/python'
    env = dict(os.environ)
    want = {'PYTHONDONTWRITEBYTECODE': '1', 'LC_ALL': 'C.UTF-8'}
    if 'PYTHONHASHSEED' not in env:
        want['PYTHONHASHSEED'] = '1'
    if os.path.realpath(sys.executable) != os.path.realpath(py) or \
            not sys.prefix.startswith('/opt/venv') or \
            any(env.get(k) != v for k, v in want.items()):
        env.update(want)
        env.pop('PYTHONPATH', None)
        if 'VERIF_REPO' in env:
            # For trying out changes in a copy; the registered commands do not set this.
            env['PYTHONPATH'] = env['VERIF_REPO']
        os.execve(py, [py] + sys.argv, env)


if __name__ == '__main__':
    reexec()
    sys.path.insert(0, HERE)
    from lib import core
    pid = sys.argv[1]
    sys.exit(core.main('props.' + pid.lower(), sys.argv[2:]))
