"""C26: captured connections are paired, ordered and never lost or mixed."""
import email.utils
import os
import tempfile

from httpolice import inputs
from lib import htmltree
from lib.core import Part, Violation, require, same, sut

PID = 'C26'
TECHNIQUE = ('generated directories and lists of stream files rendered from abstract connections; oracle: the abstract '
             'connections (round trip) and validity of the merge by time')
NOTE = 'Random sampling, up to 5 connections of up to 4 exchanges each; bodies are plain (C03, C04 vary them).'
RULE = ('sets of tcpflow, tcpick, pair, single-stream and combined files with random names, directions, times, missing or '
        'non-HTTP sides; non-trivial when there are at least two connections, or the files have to be rejected')
ASSUMPTIONS = ['times in the messages are valid dates; ties in time may be broken in file order only when that order is defined']

EPOCH = 1262304000      # 2010-01-01
JUNK = [b'', b'\x16\x03\x01\x00\xa5', b'SSH-2.0-OpenSSH\r\n', b'GET / HTTP/0.9', b'HTTP/1.1 20', b'GET /\r\n\r\n',
        b'GET / HTTP/1.1x\r\n\r\n', b'HTTP/2.0 200 OK\r\n\r\n', b' HTTP/1.1 200 OK\r\n\r\n', b'a b c\r\nGET / HTTP/1.1\r\n\r\n',
        b'HTTP/1.1 2000 OK\r\n\r\n', b'HTTP/1.1 200\r\n\r\n']


METHODS = [b'GET', b'GET', b'POST', b'get', b'VERSION-CONTROL', b'M-SEARCH', b'X', b'!#', b'A1', b'\xc9']
SUFFIXES = [b'', b'', b'?a=b', b'?\xe9', b'?' + b'y' * 300, b'?HTTP/1.1', b'?%20']
STATUSES = [b'200 OK', b'200 OK', b'404 ', b'500 \xe9', b'302 x y', b'999 HTTP/1.1', b'206 ' + b'z' * 300]

BODIES = [b'', b'x', b'xx', b'xxx', b'\r\n', b'======== BEGIN OUTBOUND STREAM ========\r\n', b'x\r\n======== BEGIN INBOUND STREAM ========\r\n\r\n',
          b'HTTP/1.1 200 OK\r\n\r\n']


def gen_conn(g, fmt):
    return {'kind': g.weighted([(10, 'both'), (3, 'in'), (3, 'out'), (2, 'junk'), (1, 'junk-in'), (1, 'junk-out'),
                                (1, 'one-junk')]),
            'flip': g.bool(), 'dir': g.int(0, 1), 'start': g.int(0, 60), 'lag': g.int(0, 2),
            'exchanges': [{'gap': g.int(0, 40), 'req_date': g.bool(20), 'date': g.bool(70), 'age': g.choice([None, None, None, 0, 25, 25, 86401, 10 ** 7, 10 ** 12, 10 ** 30]), 'interim': g.weighted([(6, None), (1, 'undated'), (1, 'dated')]),
                           'body': g.int(0, len(BODIES) - 1), 'method': g.choice(METHODS), 'suffix': g.choice(SUFFIXES),
                           'version': g.choice([b'1.1', b'1.1', b'1.1', b'1.0', b'1.9']), 'status': g.choice(STATUSES)} for _ in range(g.int(1, 4))],
            'missing': g.weighted([(4, 0), (1, 1)]), 'surplus': g.weighted([(5, 0), (1, 1), (1, 2)]),
            'junk': g.choice(JUNK), 'junk2': g.choice(JUNK),
            'same_peer': g.bool(30), 'same_addr': g.bool(20)}


def gen_dir(g):
    fmt = g.choice(['tcpflow', 'tcpick'])
    return {'fmt': fmt, 'conns': g.list(lambda: gen_conn(g, fmt), 1, 5), 'extra': g.bool(30),
            'order': g.int(0, 10 ** 6), 'counter': g.choice([1, 9, 98]), 'digits': g.choice([1, 2, 6, 6]),
            'bad': g.weighted([(12, None), (1, 'name'), (1, 'duplicate')]), 'bad_name': g.choice(
                {'tcpflow': ['foo', '1-a-1-b-2', 'x-a-1-b-2-3', '1-a-1-b-2-3-', '1-a-x-b-2-3', 'report.xm', '1-a-1-b-2-x',
                             '-a-1-b-2-3', 'Report.xml', '1-a-b-2-3', ' 1-a-1-b-2-3', '1-a-1-b-2-3.bak',
                             '9999999999999-a-1-b-2-3'],
                 'tcpick': ['foo', 'tcpick_1_a_b_80.serv', 'tcpick_1_a_b_80.foo.dat', 'tcpick_x_a_b_80.serv.dat',
                            'tcpick_a_b_80.serv.dat', 'tcpick_1_a_b_80.clnt.dat.bak', 'tcpick_1_a_b.serv.dat', 'report.xml',
                            'xtcpick_1_a_b_80.serv.dat', 'tcpick_1_a_b_80.both.dat']}[fmt])}


def gen_list(g):
    fmt = g.choice(['streams', 'req-stream', 'resp-stream', 'combined'])
    return {'fmt': fmt, 'conns': g.list(lambda: gen_conn(g, fmt), 1, 4),
            'bad': g.weighted([(8, None), (1, 'odd')]) if fmt == 'streams' else
            g.weighted([(8, None), (1, 'markers')]) if fmt == 'combined' else None,
            'suffixes': [g.choice(['', '.http', '.https', '.noscheme', '.HTTPS', 'https', '.https.bak']) for _ in range(4)],
            'preamble': g.choice(['', 'foo\n', 'Комментарий\n\n', '======== BEGIN OUTBOUND STREAM ========\n'])}


# ------------------------------------------------------------------ rendering

def date(t):
    return email.utils.formatdate(EPOCH + t, usegmt=True)


def render(i, conn):
    """Inbound and outbound bytes, and what they hold: [(request key or None, response key or None, time or None)]."""
    inb, outb, items = b'', b'', []
    t = conn['start']
    exs = conn['exchanges']
    n_resp = max(0, len(exs) - conn['missing']) if not conn['surplus'] else len(exs) + conn['surplus']
    for k in range(max(len(exs), n_resp)):
        e = exs[k] if k < len(exs) else exs[-1]
        t += e['gap']
        rt, pt = None, None
        has_req, has_resp = k < len(exs), k < n_resp
        if has_req:
            inb += b'%s /c%d/e%d%s HTTP/%s\r\nHost: a.com\r\n' % (e['method'], i, k, e['suffix'], e['version'])
            if e['req_date']:
                rt = t
                inb += b'Date: %s\r\n' % date(t).encode()
            inb += b'\r\n'
        if has_resp:
            if e['interim'] and has_req:
                # Another response to the same request; the first one that is dated counts.
                outb += b'HTTP/1.1 102 x\r\nX-Id: /c%d/e%d\r\n' % (i, k)
                if e['interim'] == 'dated':
                    it = t - 7
                    outb += b'Date: %s\r\n' % date(it).encode()
                outb += b'\r\n'
            body = BODIES[e['body']]
            outb += b'HTTP/%s %s\r\nX-Id: /c%d/e%d\r\nContent-Length: %d\r\n' % (e['version'], e['status'], i, k, len(body))
            if e['date']:
                pt = t
                outb += b'Date: %s\r\n' % date(t).encode()
            if e['age'] is not None:
                outb += b'Age: %d\r\n' % e['age']
                if pt is not None and e['age'] < 10 ** 12:      # or else past the year 9999
                    pt += e['age']
            if e['interim'] == 'dated' and has_req:
                pt = it
            outb += b'\r\n' + body
        key = '/c%d/e%d' % (i, k)
        items.append((key if has_req else None, key if has_resp else None, rt, pt))
    return inb, outb, items


def expected_items(conn, items, kind, complain):
    """[(description, own time or None)] of one connection, in order."""
    out = []
    if complain and kind in ('in', 'out', 'one-junk'):
        out.append(('box 1278', None))
    if kind in ('junk', 'one-junk'):
        out.append(('box 1279', None))
    elif kind == 'in':
        out += [((q, None), rt) for q, _, rt, _ in items if q]
    elif kind == 'out':
        out += [((None, p), pt) for _, p, _, pt in items if p]
    elif kind == 'junk-in':         # only the outbound side is HTTP
        out += [('box 1006', None), ('box 1008', None)]
        out += [((None, p), pt) for _, p, _, pt in items if p]
    elif kind == 'junk-out':
        out.append(((items[0][0], None), items[0][2]))
        out.append(('box 1009', None))
        out += [((q, None), rt) for q, _, rt, _ in items[1:] if q]
    else:
        surplus = False
        for q, p, rt, pt in items:
            if q is None and not surplus:
                surplus = True
                out.append(('box 1008', None))
            out.append(((q, p), rt if rt is not None else pt))
    return out


# ------------------------------------------------------------------ reading back

def describe(exch, block, names):
    """(connection index, description) of an actual exchange."""
    if exch.request is None and not exch.responses:
        require(block.notices and not block.sections, 'empty exchange without notices')
        ids = [n.id for n in block.notices]
        same('notices on one complaint box', 1, len(ids))
        text = ' '.join(block.notices[0].paras)
        found = {i for name, i in names.items() if name in text}
        same('connections named by a complaint box (%s)' % text, 1, len(found))
        return found.pop(), 'box %d' % ids[0]
    q = exch.request.target.split('?')[0] if exch.request is not None else None
    require(all(r.status.informational for r in exch.responses[:-1]), 'several final responses in one exchange')
    p = None
    if exch.responses:
        ours = [[v for n, v in r.header_entries if n == 'X-Id'] for r in exch.responses]
        same('responses in one exchange', ours[:1] * len(ours), ours)
        values = [v for n, v in exch.responses[0].header_entries if n == 'X-Id']
        p = values[0].decode()
    key = q or p
    return int(key[2:key.index('/', 1)]), (q, p)


def run(fmt, paths):
    try:
        return list(inputs.formats[fmt](paths))
    except inputs.InputError as e:
        return e


def check_remark(what, msg, path):
    require(msg.remark and ('from %s, offset ' % path) in msg.remark, '%s: said to be %s, is from %s',
            what, msg.remark, path)


def read_back(exchanges, names, sides):
    """{connection: [descriptions]} and the sequence of connections."""
    blocks = htmltree.report(exchanges).blocks
    require(len(blocks) == len(exchanges), 'report has %d blocks for %d exchanges', len(blocks), len(exchanges))
    seqs, order = {}, []
    for exch, block in zip(exchanges, blocks):
        i, d = describe(exch, block, names)
        seqs.setdefault(i, []).append(d)
        order.append(i)
        for msg, side in [(exch.request, 0)] + [(r, 1) for r in exch.responses]:
            if msg is not None:
                check_remark('message of %r' % (d,), msg, sides[i][side])
    return seqs, order


def check_merge(order, times, ranks):
    """The output takes the earliest pending exchange every time (unknown times come first)."""
    heads = {i: 0 for i in times}

    def head(i):
        t = times[i][heads[i]]
        return (t is not None, t if t is not None else 0, ranks[i])
    for pos, i in enumerate(order):
        pending = [j for j in times if heads[j] < len(times[j])]
        best = min(head(j) for j in pending)
        if head(i) != best:
            raise Violation('item %d of the output is from connection %d (head %r), but %r is earlier\n'
                            '  order %r\n  times %r' % (pos, i, head(i), best, order, times))
        heads[i] += 1


def check_dir(case):
    fmt = case['fmt']
    with tempfile.TemporaryDirectory(prefix='c26-') as root:
        dirs = [os.path.join(root, d) for d in ('d0', 'd1')]
        for d in dirs:
            os.mkdir(d)
        files, names, expected, sides, ranks, hints = {}, {}, {}, {}, {}, {}
        counter = {0: case['counter'], 1: case['counter']}
        for i, conn in enumerate(case['conns']):
            kind = conn['kind']
            inb, outb, items = render(i, conn)
            if kind == 'both' and not outb:
                outb = b'HTTP/1.1 100 Continue\r\n'      # cut short
                items = [(q, None, rt, None) for q, _, rt, _ in items]
            if kind == 'out' and not outb:
                kind = 'in'
            if kind == 'junk-in' and not outb:
                kind = 'junk'
            data = {'junk': (conn['junk'], conn['junk2']), 'junk-in': (b'garbage', outb), 'junk-out': (inb, b'garbage'),
                    'one-junk': (conn['junk'], None), 'in': (inb, None), 'out': (None, outb)}.get(kind, (inb, outb))
            d = conn['dir']
            c = counter[d]
            counter[d] += 1
            client = 'C%dX' % i if fmt == 'tcpflow' else 'C%dX.%d' % (i, i)
            # The "source" of tcpflow names may be any side; several connections may share a peer.
            port = 1000 + i
            if conn['same_addr'] and (fmt == 'tcpick' or not any(x['same_addr'] and x['dir'] == d for x in case['conns'][:i])):
                # Told apart by the counter (tcpick) or the directory (tcpflow).
                client, port = 'same', 1
                conn = dict(conn, same_peer=True)
            peer = 'srv' if conn['same_peer'] else 's%d' % i
            paths = [None, None]
            for side in (0, 1):
                if data[side] is None:
                    continue
                if fmt == 'tcpflow':
                    ts = EPOCH + conn['start'] + (conn['lag'] if (side == 1) != conn['flip'] else 0)
                    src, dst = ('%s-%05d' % (client, port), '%s-00080' % peer)
                    if side == 1:
                        src, dst = dst, src
                    name = '%d-%s-%s-%d' % (ts, src, dst, i % 3)
                else:
                    end = 'clnt' if (side == 0) != conn['flip'] else 'serv'
                    name = 'tcpick_%0*d_%s_%s_www.%s.dat' % (case['digits'], c, client, peer, end)
                    if conn['flip'] and side in (0, 1):
                        name = 'tcpick_%0*d_%s_%s_www.%s.dat' % (case['digits'], c, peer, client, end)
                paths[side] = os.path.join(dirs[d], name)
                files[paths[side]] = data[side]
                names[paths[side]] = i
            sides[i] = paths
            ranks[i] = (d, EPOCH + conn['start'] + (conn['lag'] if None in data and
                                                    ((data[1] is not None) != conn['flip']) else 0)
                        if fmt == 'tcpflow' else c)
            hints[i] = ranks[i][1] - EPOCH if fmt == 'tcpflow' else None
            expected[i] = expected_items(conn, items, kind, True)
            if kind == 'both' and outb == b'HTTP/1.1 100 Continue\r\n':
                expected[i] = None
        bad = case['bad']
        if bad == 'name':
            files[os.path.join(dirs[0], case['bad_name'])] = b''
        elif bad == 'duplicate':
            p = sorted(files)[0]
            d, base = os.path.split(p)
            base = base[:-1] + '7' if fmt == 'tcpflow' else base.replace('tcpick_', 'tcpick_0', 1)
            files[os.path.join(d, base)] = files[p]
        if case['extra'] and fmt == 'tcpflow':
            files[os.path.join(dirs[0], 'report.xml')] = b'<x/>'
            files[os.path.join(dirs[1], 'alerts.txt')] = b'GET / HTTP/1.1\r\n'
        todo = sorted(files)
        k = case['order']
        while todo:
            p = todo.pop(k % len(todo))
            with open(p, 'wb') as f:
                f.write(files[p])
        result = sut('reading %s' % fmt, run, fmt, dirs)
        if bad:
            require(isinstance(result, inputs.InputError), 'bad file names %r were accepted', sorted(map(os.path.basename, files)))
            return True, [fmt, 'rejected: ' + bad]
        require(not isinstance(result, Exception), 'good files %r were rejected: %s', sorted(files), result)
        seqs, order = read_back(result, names, sides)
        for i, items in expected.items():
            if items is None:
                # An outbound stream cut within the first heading.
                conn = case['conns'][i]
                n = len(conn['exchanges'])
                items = expected[i] = [(('/c%d/e%d' % (i, k), None),
                                        conn['start'] + sum(e['gap'] for e in conn['exchanges'][:k + 1])
                                        if conn['exchanges'][k]['req_date'] else None) for k in range(n)]
                items.insert(1, ('box 1009', None))
            same('exchanges of connection %d' % i, [d for d, _ in items], seqs.get(i))
        require(set(seqs) == set(expected), 'other connections: %r', seqs)
        times = {}
        for i, items in expected.items():
            t, ts = hints[i], []
            for n, (_, own) in enumerate(items):
                if own is not None:
                    t = max(own, t) if n == 0 and t is not None else own
                ts.append(t)
            times[i] = ts
        check_merge(order, times, ranks)
        return len(expected) > 1, [fmt, '%d connections' % len(expected)] + ['kind ' + c['kind'] for c in case['conns']]


BEGIN_IN = b'======== BEGIN INBOUND STREAM ========\r\n'
BEGIN_OUT = b'======== BEGIN OUTBOUND STREAM ========\r\n'


def check_list(case):
    fmt = case['fmt']
    with tempfile.TemporaryDirectory(prefix='c26-') as root:
        paths, expected, sides, schemes, names = [], {}, {}, {}, {}
        for i, conn in enumerate(case['conns']):
            inb, outb, items = render(i, conn)
            if not outb or fmt == 'req-stream':
                inb, outb, items = render(i, dict(conn, missing=0, surplus=0))
            a, b = os.path.join(root, 'F%dX' % i), os.path.join(root, 'F%dY' % i)
            names[a] = names[b] = i
            kind = {'req-stream': 'in', 'resp-stream': 'out'}.get(fmt, 'both')
            expected[i] = expected_items(conn, items, kind, False)
            if fmt == 'combined':
                a += case['suffixes'][i]
                data = case['preamble'].encode() + BEGIN_IN + inb + BEGIN_OUT + outb
                if case['bad'] == 'markers':
                    data = data.replace([BEGIN_IN, BEGIN_OUT][i % 2], b'')
                    if i % 2 == 1 and case['preamble'].startswith('===='):
                        data = data.replace(case['preamble'].encode(), b'')
                todo = [(a, data)]
                sides[i] = (a + ' (inbound)', a + ' (outbound)')
            else:
                todo = [(a, inb), (b, outb)]
                if fmt == 'req-stream':
                    todo = todo[:1]
                elif fmt == 'resp-stream':
                    todo = todo[1:]
                sides[i] = (a, b)
            schemes[i] = 'http'
            if fmt == 'combined':
                schemes[i] = 'https' if a.endswith('.https') else None if a.endswith('.noscheme') else 'http'
            for p, data in todo:
                with open(p, 'wb') as f:
                    f.write(data)
                paths.append(p)
        if case['bad'] == 'odd':
            paths.pop()
        result = sut('reading %s' % fmt, run, fmt, paths)
        if case['bad']:
            require(isinstance(result, inputs.InputError), 'bad files (%s) were accepted', case['bad'])
            return True, [fmt, 'rejected: ' + case['bad']]
        require(not isinstance(result, Exception), 'good files were rejected: %s', result)
        seqs, order = read_back(result, names, sides)
        for i, items in expected.items():
            same('exchanges of connection %d' % i, [d for d, _ in items], seqs.get(i))
        for exch, i in zip(result, order):
            if exch.request is not None:
                same('scheme of %s' % sides[i][0], schemes[i], exch.request.scheme)
        if fmt == 'combined':
            same('order of files', sorted(order), order)
        else:
            times = {}
            for i, items in expected.items():
                t, times[i] = None, []
                for _, own in items:
                    t = own if own is not None else t
                    times[i].append(t)
            check_merge(order, times, {i: i for i in times})
        return len(expected) > 1, [fmt, '%d connections' % len(expected)]


PARTS = [
    Part('directories', gen_dir, check_dir, 3000),
    Part('lists', gen_list, check_list, 2500),
]
