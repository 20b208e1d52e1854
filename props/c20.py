"""C20: withholding information only switches checks off."""
import httpolice
from lib import seeds, wild
from lib.core import Part, same, sut

PID = 'C20'
TECHNIQUE = 'metamorphic: generated exchanges with pieces withheld against the same exchanges with every likely value of the piece'
NOTE = ('Random sampling. The values of a withheld piece that are tried: all schemes and versions that matter and one that does not, '
        'bodies of several kinds and the real one, requests of several kinds and the real one.')
RULE = 'exchanges from the corpus under mutation, with one or two pieces withheld; non-trivial when notices remain'

SCHEMES = ['http', 'https', 'foo']
VERSIONS = ['HTTP/1.1', 'HTTP/1.0', 'HTTP/2', 'HTTP/3']
PAIRS = [('HTTP/1.1', 'HTTP/1.1'), ('HTTP/1.1', 'HTTP/1.0'), ('HTTP/1.0', 'HTTP/1.1'), ('HTTP/1.0', 'HTTP/1.0'), ('HTTP/2', 'HTTP/2'),
         ('HTTP/3', 'HTTP/3')]
BODIES = [b'', b'x', b'{"a": 1}', b'{', b'<a/>', b'a=b', b'access_token=x', b'a b', b'--a\r\n\r\nb\r\n--a--\r\n', b'\xff']

PAYLOADS = [b'application/json', b'application/xml', b'application/x-www-form-urlencoded', b'multipart/mixed; boundary=a', b'multipart/byteranges; boundary=a',
            b'application/json; charset=utf-16', b'text/plain; charset=utf-8', b'image/svg+xml', b'multipart/form-data']

# Notices on a response that have nothing to do with the request.
ALONE = {1000, 1013, 1015, 1020, 1026, 1030, 1034, 1035, 1042, 1052, 1054, 1064, 1077, 1093, 1095, 1118, 1127, 1156, 1157, 1158, 1197, 1207, 1244,
         1277, 1293, 1294, 1299, 1300}
NEED_BODY = {1036, 1037, 1038, 1039, 1040, 1138, 1139, 1140, 1141, 1142, 1143, 1144, 1145, 1275, 1281}
NEED_URI = {1055, 1060, 1085}


def gen(g):
    case = seeds.exchange(g, 3)
    for m in seeds.messages(case):
        m['headers'] = [e for e in m['headers'] if e[0].lower() != 'httpolice-silence']
        if g.bool(12):
            # Something to say about the payload.
            m['headers'] = [e for e in m['headers'] if e[0].lower() not in ('content-type', 'content-encoding')] + [('Content-Type', g.choice(PAYLOADS))]
            m['body'] = b'' if g.bool(40) else g.choice(BODIES)
    for r in case['responses']:
        if g.bool(6):
            r['status'] = g.choice([505, 505, 101, 206, 304, 406, 412, 415, 416, 417, 426, 428])
    pieces = []
    for _ in range(g.int(1, 2)):
        pieces.append((g.choice(['scheme', 'version', 'body', 'body unavailable', 'reason', 'version', 'body', 'request', 'responses', 'version', 'versions']), g.int(0, 3)))
    return {'exchange': case, 'pieces': pieces}


def clone(case):
    return {'request': case['request'] and seeds.copy(case['request']), 'responses': [seeds.copy(r) for r in case['responses']]}


def judged(case):
    """Sets of notice numbers by message; None for messages that are not there."""
    exch = sut('constructing', wild.build, case)
    sut('check_exchange', httpolice.check_exchange, exch)
    req, resps, own = wild.ids(exch)
    same('notices on the exchange itself', [], own)
    return dict([('request', set(req))] if req is not None else [], **{'response %d' % i: set(x) for i, x in enumerate(resps)})


def withhold(case, piece, i):
    """(the exchange with the piece withheld, [complete exchanges]), or None if it cannot be withheld."""
    msgs = seeds.messages(case)
    if not msgs:
        return None
    k = i % len(msgs)
    msg = msgs[k]
    if piece == 'scheme':
        if case['request'] is None:
            return None
        field, values, unknown = 'scheme', SCHEMES + [case['request']['scheme']], None
        k = 0
    elif piece == 'version':
        field, values, unknown = 'version', VERSIONS + [msg['version']], None
    elif piece == 'versions':
        if len(msgs) < 2:
            return None
        left, full = clone(case), []
        for m in seeds.messages(left):
            m['version'] = None
        for vs in PAIRS + [None]:
            c = clone(case)
            for n, m in enumerate(seeds.messages(c)):
                if vs is not None:
                    m['version'] = vs[min(n, 1)]
            full.append(c)
        return left, full
    elif piece == 'body':
        if msg['body'] is None:
            return None
        field, values, unknown = 'body', BODIES + [wild.UNAVAILABLE, msg['body']], None
    elif piece == 'body unavailable':
        # It is there, but nobody knows what it is.
        if msg['body'] in (None, b'', wild.UNAVAILABLE):
            return None
        field, values, unknown = 'body', BODIES[1:] + [msg['body']], wild.UNAVAILABLE
    elif piece == 'reason':
        if 'reason' not in msg:
            return None
        field, values, unknown = 'reason', ['OK'], None
    elif piece == 'request':
        if case['request'] is None or not case['responses']:
            return None
        left, full = clone(case), []
        left['request'] = None
        for req in [case['request']] + REQUESTS:
            c = clone(case)
            c['request'] = seeds.copy(req)
            full.append(c)
        return left, full
    else:
        if case['request'] is None:
            return None
        left = clone(case)
        left['responses'] = []
        return left, [case]
    left = clone(case)
    seeds.messages(left)[k][field] = unknown
    full = []
    for v in values:
        if v is None:
            continue
        c = clone(case)
        seeds.messages(c)[k][field] = v
        full.append(c)
    return left, full


def _request(method, target='/', body=b'', **kwargs):
    return dict({'method': method, 'target': target, 'scheme': 'http', 'version': 'HTTP/1.1', 'body': body, 'trailers': None,
                 'headers': [('Host', b'example.com'), ('User-Agent', b'demo')]}, **kwargs)


REQUESTS = [_request('GET'), _request('HEAD'), _request('POST', body=b'x'), _request('CONNECT', 'example.com:80'), _request('OPTIONS', '*'),
            _request('GET', version='HTTP/1.0'), _request('GET', version='HTTP/2', scheme='https'), _request('PUT', '/foo'), _request('FOO')]
_RICH = [('Host', b'example.com'), ('User-Agent', b'demo'), ('Range', b'bytes=0-1'), ('If-Range', b'"a"'), ('If-None-Match', b'"a", *'),
         ('If-Match', b'"a"'), ('If-Modified-Since', b'Sat, 01 Jan 2000 00:00:00 GMT'), ('Accept', b'text/plain'), ('Accept-Language', b'en'),
         ('Accept-Encoding', b'gzip'), ('Accept-Charset', b'utf-8'), ('Expect', b'100-continue'), ('Content-Length', b'1'),
         ('Content-Type', b'text/foo'), ('Authorization', b'Bearer x'), ('Proxy-Authorization', b'Basic YTpi'), ('Upgrade', b'h2c, foo, websocket'),
         ('Connection', b'upgrade'), ('TE', b'trailers'), ('Prefer', b'respond-async, return=minimal, wait=5, handling=lenient'),
         ('Via', b'1.1 a'), ('Max-Forwards', b'0'), ('Cache-Control', b'max-stale'), ('Origin', b'http://a.com')]
for _m in ('GET', 'PATCH', 'HEAD', 'OPTIONS', 'POST', 'CONNECT'):
    REQUESTS.append(_request(_m, 'a.com:80' if _m == 'CONNECT' else '/foo?access_token=x', body=b'x', scheme='https', headers=_RICH))


def consistent(case):
    """Whether such messages could have been sent."""
    req = case['request']
    if req is None:
        return True
    framed = any(n.lower() in ('content-length', 'transfer-encoding') for n, _ in req['headers'])
    if req['body'] and not framed and req['version'] in ('HTTP/1.0', 'HTTP/1.1'):
        return False
    return not any(r['body'] and (req['method'] == 'HEAD' or req['method'] == 'CONNECT' and 200 <= r['status'] <= 299) for r in case['responses'])


def check(case):
    left, fulls = clone(case['exchange']), [clone(case['exchange'])]
    done = []
    for piece, i in sorted(case['pieces'], key=lambda p: p[0] in ('request', 'responses')):
        if len(fulls) > 12:
            break
        r = withhold(left, piece, i)
        if r is None or piece in done:
            continue
        new = []
        for c in fulls:
            x = withhold(c, piece, i)
            new += x[1] if x else [c]
        left, fulls = r[0], new
        done.append(piece)
    if not done:
        return False, ['nothing to withhold']
    what = ' and '.join(done) + ' withheld'
    possible = [consistent(c) for c in fulls]
    found = judged(left)
    complete = [judged(c) for c in fulls]
    for key, ids in found.items():
        if any(possible):
            certain = set.intersection(*[c[key] for c, ok in zip(complete, possible) if ok])
            same('%s: notices on the %s that depend on it' % (what, key), [], sorted(ids - certain))
        certain = set.intersection(*[c[key] for c in complete])
        if 'responses' in done:
            # (a request is known to be for a proxy only when somebody asks)
            certain -= {1236}
        if any(p.startswith('body') for p in done):
            # The payload is unknown.
            certain -= NEED_BODY
        if 'scheme' in done:
            # The effective request URI is unknown.
            certain -= NEED_URI
        if 'request' in done:
            # (other notices may need some request that was not tried)
            certain &= ALONE
        same('%s: notices on the %s that every value of it gives, missing' % (what, key), [], sorted(certain - ids))
    return any(found.values()), [what]


PARTS = [Part('withhold', gen, check, 4000)]
