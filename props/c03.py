"""C03: well-formed HTTP/1.x traffic is reconstructed exactly."""
import os
import re
import tempfile

from httpolice import inputs
from lib import wire
from lib.core import Part, Violation, require, same, sut

PID = 'C03'
TECHNIQUE = 'round trip: random abstract connections rendered with random framing, then read from stream files'
NOTE = 'Random sampling, connections of up to 4 exchanges; bodies up to 30 kB.'
RULE = ('connections of 1-4 exchanges with interim responses, every framing, transfer codings, chunk layouts and extensions, '
        'trailers and protocol switches; non-trivial when there are two exchanges or an encoded or chunked body')
ASSUMPTIONS = ['field values have no leading or trailing whitespace and no line feeds']


def gen(g):
    conn = wire.gen_connection(g)
    return {'conn': conn, 'format': g.choice(['streams', 'combined', 'combined']),
            'limit': g.bool(4), 'missing': g.bool(8)}


def gen_alone(g):
    side = g.choice(['req-stream', 'resp-stream'])
    conn = wire.gen_connection(g, switch=False, heads=False)
    return {'conn': conn, 'format': side, 'limit': False, 'missing': False}


def check(case):
    conn = case['conn']
    exs = conn['exchanges']
    if case['limit']:
        # The longest line that is allowed.
        n = wire.MAX_LINE - len(wire.field('X-Long', b'', exs[0]['request']['ows']))
        exs = [dict(e) for e in exs]
        exs[0]['request'] = dict(exs[0]['request'])
        exs[0]['request']['headers'] = [('X-Long', b'l' * n)] + exs[0]['request']['headers']
        conn = dict(conn, exchanges=exs)
    if case['missing'] and len(exs) > 1 and exs[-1]['responses'][-1]['status'] != 101:
        exs = exs[:-1] + [dict(exs[-1], responses=[])]
        conn = dict(conn, exchanges=exs, tail_in=b'', tail_out=b'')
    reqs, resps = wire.flatten(conn)
    starts, streams = {}, []
    for side, tail in ((reqs, conn['tail_in']), (resps, conn['tail_out'])):
        data = b''
        for key, m in side:
            starts[key] = len(data)
            data += wire.join(wire.pieces(m))
        streams.append(data + tail)
    ends = [len(streams[0]) - len(conn['tail_in']), len(streams[1]) - len(conn['tail_out'])]
    with tempfile.TemporaryDirectory(prefix='c03-') as d:
        paths = [os.path.join(d, 'in'), os.path.join(d, 'out')]
        if case['format'] == 'combined':
            todo = [(paths[0], b'======== BEGIN INBOUND STREAM ========\r\n' + streams[0] +
                     b'======== BEGIN OUTBOUND STREAM ========\r\n' + streams[1])]
            names = [paths[0] + ' (inbound)', paths[0] + ' (outbound)']
        else:
            todo = list(zip(paths, streams))
            names = paths
            if case['format'] == 'req-stream':
                todo = todo[:1]
            elif case['format'] == 'resp-stream':
                todo = todo[1:]
        for p, data in todo:
            with open(p, 'wb') as f:
                f.write(data)
        result = sut('reading', lambda: list(inputs.formats[case['format']]([p for p, _ in todo])))
    expected = []
    for i, e in enumerate(exs):
        q = e['request'] if case['format'] != 'resp-stream' else None
        p = e['responses'] if case['format'] != 'req-stream' else []
        expected.append((i, q, p))
    messages = [e for e in result if e.request is not None or e.responses]
    boxes = [n.id for e in result for n in e.notices]
    same('number of exchanges', len(expected), len(messages))
    switched = exs[-1]['responses'] and case['format'] in ('streams', 'combined') and \
        (exs[-1]['responses'][-1]['status'] == 101 or
         exs[-1]['request']['method'] == 'CONNECT' and exs[-1]['responses'][-1]['status'] < 300)
    want_boxes = []
    if switched:
        want_boxes = [1007] * bool(conn['tail_in']) + [1010] * bool(conn['tail_out'])
    same('notices outside messages', want_boxes, boxes)
    for (i, q, p), exch in zip(expected, messages):
        pairs = [((i,), q, exch.request, 0)] + [((i, j), a, b, 1) for j, (a, b) in enumerate(zip(p, exch.responses))]
        same('exchange %d: number of responses' % i, len(p), len(exch.responses))
        for key, a, b, side in pairs:
            if a is None:
                require(b is None, 'exchange %d: a request out of nowhere', i)
                continue
            require(b is not None, 'exchange %d: request lost', i)
            w, g = wire.want(a, side == 0), wire.got(b, side == 0)
            if side and switched and key == (len(exs) - 1, len(p) - 1):
                w['ids'] = [1011 if a['status'] == 101 else 1012]
            if w != g:
                raise Violation('message %s (bytes %d of %s)\n%s' % (key, starts[key], names[side], '\n'.join(
                    '  %s\n    expected: %.500r\n    actual:   %.500r' % (k, w[k], g[k]) for k in w if w[k] != g[k])))
            m = re.match(r'from (.*), offset (\d+)$', b.remark or '', re.S)
            require(m and (m.group(1), int(m.group(2))) == (names[side], starts[key]),
                    'message %s at byte %d of %s is said to be %s', key, starts[key], names[side], b.remark)
        require(exch.request is None or not [n for n in exch.request.notices if n.id in wire.FRAMING], 'framing notice')
    for n, e in ((0, 1007), (1, 1010)):
        if e in want_boxes:
            box = [x for x in result if [c.id for c in x.notices] == [e]][0]
            same('numbers in no. %d' % e, [ends[n]], wire.numbers(box, names))
    ms = [m for _, m in reqs + resps]
    return len(exs) > 1 or any(m['te'] or m['framing'] == 'chunked' for m in ms), \
        [case['format']] + ['framing ' + m['framing'] for m in ms] + (['switch'] if switched else [])


PARTS = [Part('pairs', gen, check, 8000), Part('alone', gen_alone, check, 2000)]
