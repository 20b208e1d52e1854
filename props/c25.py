"""C25: the command-line tool reports and exits as documented."""
import io
import os
import shutil
import tempfile

import httpolice
from httpolice import inputs
from lib import cli, htmltree
from lib.core import Part, require, same, sut
from props import c02

PID = 'C25'
TECHNIQUE = 'generated input files and options; oracle: reports made through the library, and a model of the exit status'
NOTE = 'Random sampling; silenced numbers are chosen among those that are reported, mostly.'
RULE = ('1-3 input files of any format, silences, --fail-on and output formats; non-trivial when there are notices and some option')
SEVERITIES = ['debug', 'comment', 'error']
CALM = (b'GET / HTTP/1.1\r\nHost: a.com\r\nUser-Agent: x\r\n\r\n',
        b'HTTP/1.1 200 OK\r\nDate: Thu, 31 Dec 2015 18:26:56 GMT\r\nContent-Length: 0\r\n\r\n')


def gen(g):
    case = c02.gen(g)
    if g.bool(40):
        # Little to complain about, so that severities matter.
        extra = [b'', b'X-A: b\r\n', b'Via: 1.1 a\r\n', b'Accept: \r\n', b'Date: x\r\n', b'Pragma: no-cache\r\n',
                 b'Cache-Control: foo\r\n', b'Server: a\r\n', b'Strict-Transport-Security: max-age=1\r\n']
        files = []
        for i in range(g.int(1, 3)):
            a, b = CALM
            a = a[:-2] + g.choice(extra) + b'\r\n'
            b = b[:-2] + g.choice(extra) + b'\r\n'
            interim = b'HTTP/1.1 102 Processing\r\n\r\n' * g.choice([0, 0, 1, 2])
            files.append(['%d' % i, c02.IN + a + g.choice([b'', a]) + c02.OUT + interim + b + g.choice([b'', b, b, interim + b])])
        case = {'format': 'combined', 'files': files, 'ok': True}
    return {'format': case['format'], 'files': case['files'], 'output': g.choice(['text', 'html', None]),
            'silence': g.list(lambda: g.int(0, 40), 0, 4), 'other': g.choice([[], [], [1], [-1], [10 ** 9], [1000, 1000]]),
            'fail_on': g.choice([None, None, 'error', 'comment', 'debug']), 'style': g.int(0, 3),
            # All the notices that are silenced but one.
            'keep': g.int(0, 40) if g.bool(30) else None}


def library(case, paths):
    """Checked exchanges, or None if the input fails."""
    try:
        exchanges = list(inputs.formats[case['format']](paths))
    except (inputs.InputError, EnvironmentError):
        return None
    for exch in exchanges:
        httpolice.check_exchange(exch)
    return exchanges


def everything(exchanges):
    for exch in exchanges:
        for obj in [exch] + ([exch.request] if exch.request is not None else []) + exch.responses:
            yield from obj.notices


def run(case, how):
    root = tempfile.mkdtemp(prefix='c25-')
    try:
        paths = []
        for name, data in case['files']:
            path = os.fsencode(root) + b'/' + os.fsencode(name)
            cli.write(path, data)
            paths.append(os.fsdecode(path))
        exchanges = sut('the library', library, case, paths)
        present = sorted({n.id for n in everything(exchanges or [])})
        silenced = sorted({present[i % len(present)] for i in case['silence']} if present else set()) + case['other']
        if case['keep'] is not None and present:
            silenced = sorted(set(present) - {present[case['keep'] % len(present)]}) + case['other']
        argv = []
        style = case['style']
        opts = [['-i', case['format']] if style % 2 else ['--input', case['format']]]
        if case['output']:
            opts.append(['-o', case['output']] if style % 2 else ['--output=' + case['output']])
        for i in silenced:
            opts.append(['-s', str(i)] if style != 2 and i >= 0 else ['--silence=%d' % i])
        if case['fail_on']:
            opts.append(['--fail-on', case['fail_on']])
        for o in opts[::-1] if style > 1 else opts:
            argv += o
        code, out, err = how(argv + ['--'] + paths)
        what = 'httpolice %s: ' % ' '.join(argv)
        if exchanges is None:
            same(what + 'exit status for a failing input', 1, code)
            require(err, what + 'no message for a failing input')
            return False, ['failing input']
        same(what + 'standard error', '', err)
        for exch in exchanges:
            exch.silence(silenced)
        left = list(everything(exchanges))
        worst = max([SEVERITIES.index(n.severity.name) for n in left], default=-1)
        failing = case['fail_on'] is not None and worst >= SEVERITIES.index(case['fail_on'])
        same(what + 'exit status (worst severity %d)' % worst, 1 if failing else 0, code)
        buf = io.BytesIO()
        if case['output'] == 'html':
            httpolice.html_report(exchanges, buf)
            if out != buf.getvalue():
                same(what + 'report', htmltree.normal(htmltree.Report(buf.getvalue())), htmltree.normal(htmltree.Report(out)))
        else:
            httpolice.text_report(exchanges, buf)
            same(what + 'report', buf.getvalue().decode('utf-8'), out.decode('utf-8'))
        return bool(present and (silenced or case['fail_on'])), [
            'exit %d' % code, 'fail-on %s' % case['fail_on'], 'worst %d' % worst, 'silenced %d' % min(len(silenced), 3)]
    finally:
        shutil.rmtree(root)


def check(case):
    return run(case, cli.run)


def check_process(case):
    return run(case, cli.spawn)


PARTS = [
    Part('options', gen, check, 1800),
    Part('processes', gen, check_process, 80),
]
