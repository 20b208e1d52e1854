"""C02: any input file ends in a report or in one clean error, never a traceback."""
import copy
import json
import os
import re
import shutil
import tempfile

from lib import cli, htmltree, seeds, wild, wire
from lib.core import Part, require, same
from lib.strings import mutate
from props import c27

PID = 'C02'
TECHNIQUE = ('fuzzing of the command-line tool with generated, mutated and junk input files of every format; oracle: exit status, '
             'standard error, and acceptance of what is valid by construction')
NOTE = 'Random sampling. Mostly run_cli() in one process, a sample as real processes.'
RULE = ('lists of input files in every format: valid, mutated at byte or JSON level, junk, wrongly named, missing, directories; '
        'non-trivial when some file has content')
ASSUMPTIONS = ['file names contain no line breaks', 'the checks run as root, so permission errors are not covered']

FORMATS = ['combined', 'streams', 'req-stream', 'resp-stream', 'tcpflow', 'tcpick', 'har']
IN = b'======== BEGIN INBOUND STREAM ========\r\n'
OUT = b'======== BEGIN OUTBOUND STREAM ========\r\n'


def latin(x):
    return x if isinstance(x, bytes) else str(x).encode('utf-8', 'replace')


def crude(m, start):
    """A message of the corpus as bytes, framed more or less."""
    out = start + b'\r\n'
    names = {n.lower() for n, _ in m['headers']}
    for n, v in m['headers']:
        out += latin(n) + b': ' + latin(v) + b'\r\n'
    body = m['body'] if isinstance(m['body'], bytes) else b''
    if m['body'] and 'content-length' not in names and 'transfer-encoding' not in names:
        out += b'Content-Length: %d\r\n' % len(body)
    return out + b'\r\n' + body


def gen_streams(g):
    if g.bool(40):
        conn = wire.gen_connection(g)
        reqs, resps = wire.flatten(conn)
        a = b''.join(wire.join(wire.pieces(m)) for _, m in reqs) + conn['tail_in']
        b = b''.join(wire.join(wire.pieces(m)) for _, m in resps) + conn['tail_out']
    elif g.bool(90):
        a = b = b''
        for _ in range(g.int(1, 2)):
            case = seeds.exchange(g) if g.bool(70) else wild.exchange(g)
            q = case['request']
            if q:
                a += crude(q, b'%s %s %s' % (latin(q['method']), latin(q['target']), latin(q['version'] or 'HTTP/1.1')))
            for p in case['responses']:
                b += crude(p, b'%s %s %s' % (latin(p['version'] or 'HTTP/1.1'), latin(p['status']), latin(p['reason'] or '')))
    else:
        a, b = g.bytes(0, 60), g.bytes(0, 60)
    if g.bool(30):
        a, b = junked(g, a), junked(g, b)
    return a, b


def junked(g, data):
    k = g.int(0, 5)
    if k == 0:
        return data[:g.int(0, len(data))]
    if k == 1:
        i = g.int(0, len(data))
        return data[:i] + g.bytes(1, 20) + data[i:]
    if k == 2:
        i, j = sorted((g.int(0, len(data)), g.int(0, len(data))))
        return data[:i] + data[j:]
    if k == 3:
        return data.replace(b'\r\n', b'\n')
    return mutate(g, data, 6)


# ------------------------------------------------------------------ HAR

ODD = [None, True, False, 0, -1, 1.5, 10 ** 30, 1e300, '', 'x', 'é\ud800', [], [None], {}, {'name': 'x'}, [[]], 'http://[',
       '\x00', ['a', 'b'], {'name': None, 'value': None}, [{}], -10 ** 30, 'http://a:b', 999, 1000, '200', {'text': 5}, 'HTTP/', [{'name': 5}]]


def odd(g):
    return copy.deepcopy(g.choice(ODD))


def paths_of(doc, prefix=()):
    yield prefix
    if isinstance(doc, dict):
        for k in sorted(doc):
            yield from paths_of(doc[k], prefix + (k,))
    elif isinstance(doc, list):
        for i, x in enumerate(doc):
            yield from paths_of(x, prefix + (i,))


def twist(g, doc):
    """Break the structure of a JSON document somewhere."""
    for _ in range(g.int(1, 3)):
        ps = list(paths_of(doc))
        path = g.choice(ps)
        if not path:
            if g.bool(20):
                return odd(g)
            continue
        parent = doc
        for k in path[:-1]:
            parent = parent[k]
        k = g.int(0, 4)
        if k == 0:
            del parent[path[-1]]
        elif k == 1 and isinstance(parent, dict):
            parent[g.choice(['text', 'encoding', 'name', 'x', 'log'])] = odd(g)
        else:
            parent[path[-1]] = odd(g)
    return doc


def gen_har(g):
    """(bytes, valid)"""
    k = g.int(0, 9)
    data = c27.to_har(c27.gen(g))
    if k < 3:
        return data, True
    if k < 8:
        doc = json.loads(data.decode('utf-8-sig'))
        doc = twist(g, doc)
        return json.dumps(doc, ensure_ascii=g.bool()).encode('utf-8', 'surrogatepass'), None
    if k == 8:
        return junked(g, data), None
    return g.choice([b'', b'{}', b'[]', b'null', b'{"log": null}', b'{"log": {}}', b'{"log": {"entries": []}}',
                     b'{"log": {"creator": {"name": "x"}, "entries": []}}', b'[' * 100000, b'1' * 6000, b'\xff', b'"',
                     b'{"log": {"creator": {"name": "x"}, "entries": [1]}}', b'NaN', b'{"log": [' * 500,
                     '{"log": 1}'.encode('utf-16'), b'\xef\xbb\xbf', b'{"a":' * 100000, b'--------']), None


# ------------------------------------------------------------------ file lists

TCPFLOW = ['%d-10.0.0.%d-01000-10.0.1.1-00080-%d', '%d-10.0.1.1-00080-10.0.0.%d-01000-%d']
NAMES = ['a', 'a.https', 'b.noscheme', 'с.http', '\udcff', 'a b', '-', 'x' * 200, '<b>', 'a%s']
BAD_FLOW = ['foo', '1-a-1-b-2', '99999999999999999999-a-1-b-2-3', '1-a-1-b-2-3 ', '253402300800-a-1-b-2-3', '\udcff', 'é', '1\u0661-a-1-b-2-x']
BAD_PICK = ['foo', 'tcpick_x_a_b_80.serv.dat', 'tcpick_1_a_b_80.foo.dat', '\udcff', 'report.xml']


def gen(g):
    fmt = g.choice(FORMATS)
    ok = True               # None: either outcome; False: must be rejected
    files = []
    if fmt in ('tcpflow', 'tcpick'):
        for d in range(g.int(1, 2)):
            content, dup = {}, set()
            for i in range(g.int(0, 3)):
                a, b = gen_streams(g)
                ts = g.choice([0, 1, 1445680000, 2 ** 31, 2 ** 33, 253402300799, 10 ** 9, 10 ** 9 + 1])
                for side, data in ((0, a), (1, b)):
                    if g.bool(15):
                        continue
                    if fmt == 'tcpflow':
                        name = TCPFLOW[side] % (ts + side if ts < 253402300799 else ts, i, 0)
                    else:
                        name = 'tcpick_%06d_10.0.0.%d_10.0.1.1_http.%s.dat' % (i + 1, i, ['clnt', 'serv'][side])
                    content[name] = data
            if g.bool(15):
                content[g.choice(BAD_FLOW if fmt == 'tcpflow' else BAD_PICK)] = b'x'
                ok = False
            files.append(['d%d' % d, content])
    else:
        for i in range(g.int(1, 3)):
            name = '%d%s' % (i, g.choice(NAMES))
            if fmt == 'har':
                data, valid = gen_har(g)
                ok = ok and valid
                files.append([name, data])
                continue
            a, b = gen_streams(g)
            if fmt == 'combined':
                pre = g.choice([b'', b'foo\n', 'é'.encode(), b'# x\r\n'])
                data = pre + IN + a + OUT + b
                if g.bool(8):
                    data = g.choice([b'', a, IN + a, pre + a + OUT + b, b'\xff' + IN + a + OUT + b, OUT + b + IN + a,
                                     data.replace(b'====\r\n', b'====\n')])
                    ok = False
                files.append([name, data])
            elif fmt == 'streams':
                files += [[name, a], [name + 'o', b]]
            else:
                files.append([name, a if fmt == 'req-stream' else b])
    if fmt == 'streams' and g.bool(8):
        files.pop()
        ok = False
    if g.bool(6):
        i = g.int(0, len(files) - 1)
        files[i] = [files[i][0], g.choice([None, {}]) if fmt not in ('tcpflow', 'tcpick') else None]
        ok = False
    elif g.bool(5) and fmt in ('tcpflow', 'tcpick'):
        files[0] = [files[0][0], b'a file, not a directory']
        ok = False
    return {'format': fmt, 'files': files, 'ok': ok, 'output': g.choice(['text', 'html']),
            'options': g.choice([[], [], ['-s', '1000'], ['--fail-on', 'error'], ['--full-traceback']])}


def assess(case, code, out, err, root):
    what = '%s -i %s: ' % (case['options'], case['format'])
    traced = '--full-traceback' in case['options']
    fail_on = '--fail-on' in case['options']
    require(code in (0, 1), what + 'exit status %r, standard error %r', code, err[-600:])
    failed = bool(err)
    if failed:
        require(code == 1, what + 'exit status %r with the message %r', code, err)
        lines = err.rstrip('\n').split('\n')
        require(lines[-1].startswith('httpolice: ') and len(lines[-1]) > 12 and 'unhandled' not in lines[-1],
                what + 'not a clean message: %r', err[-600:])
        require(traced or len(lines) == 1, what + 'more than one line: %r', err[-600:])
        require(case['ok'] is not True, what + 'valid files were rejected: %r', err)
    else:
        require(case['ok'] is not False, what + 'bad files were accepted')
        require(code == 0 or fail_on, what + 'exit status 1 without a message')
        if case['output'] == 'html':
            htmltree.Report(out)
        else:
            for line in out.decode('utf-8').split('\n')[:-1]:
                require(re.match(r'[EDC] \d{4} .|-{12}', line), what + 'line in the text report: %r', line)
    return failed


def run(case, how):
    root = tempfile.mkdtemp(prefix='c02-')
    try:
        argv = ['-i', case['format'], '-o', case['output']] + case['options'] + ['--']
        for name, data in case['files']:
            path = os.fsencode(root) + b'/' + os.fsencode(name)
            cli.write(path, data)
            argv.append(os.fsdecode(path))
        code, out, err = how(argv)
        failed = assess(case, code, out, err, root)
    finally:
        shutil.rmtree(root)
    return any(d for _, d in case['files']), [case['format'], 'rejected' if failed else 'reported',
                                              'must be %s' % {True: 'accepted', False: 'rejected', None: 'either'}[case['ok']]]


def check(case):
    return run(case, cli.run)


def check_process(case):
    return run(case, cli.spawn)


def one(fmt, files, ok, output='text'):
    return {'format': fmt, 'files': files, 'ok': ok, 'output': output, 'options': []}


PINNED = [
    one('har', [['a', b'[' * 100000]], None), one('har', [['a', b'{"log": {"creator": {"name": "x"}, "entries": [1]}}']], None),
    one('tcpflow', [['d', {'99999999999999999999-a-1-b-2-3': b'x'}]], False),
    one('req-stream', [['\udcff', b'GET']], True, 'html'),
]

PARTS = [
    Part('files', gen, check, 3500, pinned=PINNED),
    Part('processes', gen, check_process, 120),
]
