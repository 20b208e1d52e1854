"""HTTP/1.x connections: abstract messages, their bytes in pieces, and what reading them should yield."""
import gzip
import zlib

from lib.wild import UNAVAILABLE

FRAMING = {1001, 1002, 1003, 1004, 1005, 1006, 1007, 1008, 1009, 1010, 1011, 1012, 1016, 1027, 1224, 1298}
MAX_LINE = 16 * 1024

METHODS = ['GET', 'POST', 'HEAD', 'PUT', 'OPTIONS', 'DELETE', 'foo', 'PATCH', 'get', 'M-SEARCH', 'A' * 40]
TARGETS = ['/', '/foo', '*', 'http://a.com/b?c', '/a%20b?x=y;z', '/é', '?', 'a.com:443', '/' + 'x' * 300, '//', '/\x01']
REASONS = ['OK', '', 'Not  Found', 'é\x80', ' ', 'a b', 'HTTP/1.1 200 OK', '\t']
NAMES = ['Host', 'X-Foo', 'accept', 'Set-Cookie', 'Date', 'Via', 'Content-Type', 'x', 'Content-Encoding', 'CONNECTION',
         'Upgrade', 'Trailer', 'TE', 'X_Y', 'Expect', "!#$%&'*", 'foo bar', '(', 'é']
VALUES = [b'', b'a', b'foo, bar', b'a:b', b'\xe9\x80', b'text/plain', b'close', b'x  y\tz', b'"q,"', b'gzip', b'100-continue',
          b':', b'a\rb', b'\x00', b'HTTP/1.1 200 OK', b'0', b'chunked', b'websocket', b'a\r']
DATA = [b'', b'hello', b'\r\n', b'0\r\n\r\n', b'GET / HTTP/1.1\r\n\r\n', b'HTTP/1.1 200 OK\r\n\r\n', b'\x00\xff', b'\n', b'\r',
        b'x' * 100, b'a\r\nb\r\n', b'5\r\nhello\r\n']
EXTS = [b'', b'', b'', b';', b';a', b';a=b', b';a="b c"', b' ;a', b'\t', b' ', b';foo=bar;baz', b';\xff']
STATUSES = [200, 404, 500, 301, 206, 201, 299, 999, 302, 401, 600]
NO_BODY = [204, 304]


# ------------------------------------------------------------------ generation

def gen_headers(g, hi=4):
    out = []
    for _ in range(g.int(0, hi)):
        v = g.choice(VALUES)
        if g.bool(3):
            v = g.choice([b'y' * 5000, b'y' * 9000])
        out.append((g.choice(NAMES), v.strip(b' \t')))
    return out


def gen_data(g):
    d = g.choice(DATA)
    if g.bool(15):
        d = d * g.int(2, 5) + g.choice(DATA)
    if g.bool(10):
        d = g.bytes(0, 30)
    if g.bool(6):
        d = (d or b'z') * g.choice([8192, 3000, 20000])
        d = d[:g.choice([8191, 8192, 8193, 16384, 30000])]
    return d


def gen_body(g, msg, kinds):
    msg['framing'] = g.weighted(kinds)
    msg['data'] = gen_data(g) if msg['framing'] != 'none' else b''
    msg['te'], msg['trailers'] = [], []
    if msg['framing'] in ('chunked', 'close') and g.bool(25):
        msg['te'] = g.list(lambda: g.choice(['gzip', 'deflate', 'x-gzip']), 1, 2)
    msg['extra_cl'] = msg['framing'] == 'chunked' and g.bool(5)
    if msg['framing'] == 'chunked':
        msg['trailers'] = [h for h in gen_headers(g, 2)] if g.bool(30) else []
    msg['cuts'] = g.list(lambda: g.choice([1, 2, 5, 16, 100, 5000]), 0, 4)
    msg['exts'] = [g.choice(EXTS) for _ in range(3)]
    msg['zeros'] = g.choice([0, 0, 0, 1, 3])
    msg['upper'] = g.bool()
    msg['where'] = g.int(0, 4)
    msg['style'] = g.int(0, 5)
    return msg


def gen_request(g, last=False):
    m = {'method': g.choice(METHODS), 'target': g.choice(TARGETS), 'version': g.choice(['HTTP/1.1', 'HTTP/1.1', 'HTTP/1.0', 'HTTP/2.0',
                                                                                       'HTTP/0.9']),
         'headers': gen_headers(g), 'ows': g.int(0, 3)}
    return gen_body(g, m, [(5, 'none'), (3, 'cl'), (3, 'chunked')])


def gen_response(g, method, last, interim=False):
    m = {'version': g.choice(['HTTP/1.1', 'HTTP/1.1', 'HTTP/1.0']), 'reason': g.choice(REASONS),
         'headers': gen_headers(g), 'ows': g.int(0, 3)}
    if interim:
        m['status'] = g.choice([100, 102, 103, 199])
    else:
        m['status'] = g.choice(STATUSES) if g.bool(85) else g.choice(NO_BODY)
    kinds = [(4, 'cl'), (4, 'chunked')]
    if last:
        kinds.append((3, 'close'))
    gen_body(g, m, kinds)
    m['no_body'] = interim or m['status'] in NO_BODY or method == 'HEAD'
    if interim and g.bool(80):
        m['framing'], m['data'] = 'none', b''
    elif m['no_body'] and g.bool(50):
        m['framing'], m['data'] = 'none', b''
    return m


def gen_connection(g, switch=True, heads=True):
    n = g.int(1, 4)
    out = []
    for i in range(n):
        last = i == n - 1
        q = gen_request(g)
        if not heads and q['method'] == 'HEAD':
            q['method'] = 'GET'
        p = [gen_response(g, q['method'], False, interim=True) for _ in range(g.weighted([(8, 0), (2, 1), (1, 2)]))]
        p.append(gen_response(g, q['method'], last))
        out.append({'request': q, 'responses': p})
    conn = {'exchanges': out, 'tail_in': b'', 'tail_out': b''}
    if switch and g.bool(12):
        q, p = out[-1]['request'], out[-1]['responses'][-1]
        p['framing'], p['data'], p['te'], p['trailers'] = 'none', b'', [], []
        if g.bool():
            p['status'] = 101
        else:
            q['method'], p['status'] = 'CONNECT', g.choice([200, 204, 299])
        p['no_body'] = True
        conn['tail_in'] = g.choice([b'', b'\x16\x03\x01', b'GET / HTTP/1.1\r\n\r\n', b'\r\n'])
        conn['tail_out'] = g.choice([b'', b'\x16\x03\x01', b'HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n', b'\n'])
    return conn


# ------------------------------------------------------------------ rendering in pieces

def compress(coding, data):
    if coding == 'deflate':
        return zlib.compress(data)
    return gzip.compress(data, mtime=0)


def field(name, value, ows=0):
    before, after = [(b' ', b''), (b'', b''), (b'\t ', b' '), (b'  ', b'\t\t')][ows]
    return name.encode('latin-1') + b':' + before + value + after + b'\r\n'


def body_headers(m):
    """The header fields that frame the body."""
    te = list(m['te']) + (['chunked'] if m['framing'] == 'chunked' else [])
    te = m.get('te_override') or te
    out = []
    if m['framing'] == 'cl':
        n = str(len(m['data']))
        out.append(('Content-Length', ('0' * m['zeros'] + n).encode()))
    if m.get('extra_cl'):
        out.append(('content-length', b'%d' % (len(m['data']) + 1)))
    if te:
        style = m['style']
        te = [t.upper() if style == 1 else t.title() if style == 2 else t for t in te]
        if style == 3 and len(te) > 1:
            out += [('Transfer-Encoding', t.encode()) for t in te]
        else:
            out.append(('transfer-encoding' if style == 4 else 'Transfer-Encoding',
                        (' , ' if style == 5 else ', ').join(te).encode()))
    if m.get('cl_override') is not None:
        out = [('Content-Length', m['cl_override'])]
    return out


def entries(m):
    hs = list(m['headers'])
    i = min(m['where'], len(hs))
    return hs[:i] + body_headers(m) + hs[i:]


def pieces(m):
    """The message as [(kind, bytes)]."""
    if 'status' in m:
        line = '%s %03d %s' % (m['version'], m['status'], m['reason'])
    else:
        line = '%s %s %s' % (m['method'], m['target'], m['version'])
    out = [('start', line.encode('latin-1') + b'\r\n')]
    out += [('header', field(n, v, m['ows'])) for n, v in entries(m)]
    out.append(('blank', b'\r\n'))
    if m.get('no_body') or m['framing'] == 'none':
        return out
    data = m['data']
    for c in m['te']:
        data = compress(c, data)
    data = m.get('raw', data)
    if m['framing'] in ('cl', 'close'):
        if data:
            out.append(('data', data))
        return out
    i, k, cuts = 0, 0, list(m['cuts'])
    while i < len(data):
        n = min(cuts.pop(0), len(data) - i) if cuts else len(data) - i
        size = ('%X' if m['upper'] else '%x') % n
        out.append(('size', b'0' * m['zeros'] + size.encode() + m['exts'][k % len(m['exts'])] + b'\r\n'))
        out.append(('chunk', data[i:i + n]))
        out.append(('chunk-end', b'\r\n'))
        i += n
        k += 1
    out.append(('last', b'0' * m['zeros'] + b'0' + m['exts'][k % len(m['exts'])] + b'\r\n'))
    out += [('trailer', field(n, v, m['ows'])) for n, v in m['trailers']]
    out.append(('end', b'\r\n'))
    return out


def flatten(conn):
    """[(key, message)] of both directions; key is the place of the message in the connection."""
    reqs = [((i,), e['request']) for i, e in enumerate(conn['exchanges']) if e['request'] is not None]
    resps = [((i, j), p) for i, e in enumerate(conn['exchanges']) for j, p in enumerate(e['responses'])]
    return reqs, resps


def join(ps):
    return b''.join(b for _, b in ps)


# ------------------------------------------------------------------ what reading yields

def want(m, is_req):
    """The intact message."""
    has_body = not m.get('no_body')
    r = {'version': m['version'], 'headers': entries(m), 'body': m['data'] if has_body else b'',
         'trailers': m['trailers'] if has_body and m['framing'] == 'chunked' else [], 'ids': []}
    if is_req:
        r.update(method=m['method'], target=m['target'])
    else:
        r.update(status=m['status'], reason=m['reason'])
    return r


def got(msg, is_req):
    b = msg.body
    r = {'version': msg.version, 'headers': [(str(n), v) for n, v in msg.header_entries],
         'body': b if b is None or isinstance(b, bytes) else UNAVAILABLE,
         'trailers': [(str(n), v) for n, v in msg.trailer_entries or []],
         'ids': sorted(n.id for n in msg.notices if n.id in FRAMING)}
    if is_req:
        r.update(method=str(msg.method), target=msg.target)
    else:
        r.update(status=int(msg.status), reason=msg.reason)
    r['version'] = str(r['version'])
    return r


def numbers(box, names):
    """Numbers in the explanation of a complaint box, other than those in file names."""
    import re
    from lib import htmltree
    [block] = htmltree.report([box]).blocks
    text = ' '.join(block.notices[0].paras)
    for name in names:
        text = text.replace(name, 'FILE')
    return [int(x) for x in re.findall(r'\d+', text)]
