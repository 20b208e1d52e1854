"""Running the command-line tool, in this process or in another."""
import io
import os
import subprocess
import sys

from lib.core import Violation, sut

TOOL = [sys.executable, '-c', 'import sys; from httpolice.cli import main; main()']


class _Out:
    def __init__(self):
        self.buffer = io.BytesIO()


def run(argv):
    """(exit code, stdout bytes, stderr text); anything but a return from run_cli is a violation."""
    from httpolice import cli
    try:
        args = cli.parse_args(['httpolice'] + argv)
    except SystemExit as e:
        raise Violation('arguments %r were rejected (exit %r)' % (argv, e.code))
    out = _Out()
    err = io.TextIOWrapper(io.BytesIO(), encoding='utf-8', errors='backslashreplace', newline='\n')
    code = sut('httpolice %s' % ' '.join(argv), cli.run_cli, args, out, err)
    err.flush()
    return code, out.buffer.getvalue(), err.buffer.getvalue().decode('utf-8')


def spawn(argv, timeout=120, **kwargs):
    p = subprocess.run(TOOL + argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                       timeout=timeout, **kwargs)
    return p.returncode, p.stdout, p.stderr.decode('utf-8', 'replace')


def write(path, data):
    """A file of bytes, or a directory (dict); None means nothing."""
    if isinstance(data, dict):
        os.mkdir(path)
        for name, content in data.items():
            write(os.path.join(path, os.fsencode(name) if isinstance(path, bytes) else name), content)
    elif data is not None:
        with open(path, 'wb') as f:
            f.write(data)
