"""Conditional and range request verdicts follow the rules."""
from lib import proto, rules
from lib.core import Part

PID = 'C16'
TECHNIQUE = 'property-based testing of generated exchanges against a reference model of conditional and range requests'
NOTE = ('entity tags, dates, ranges and multipart/byteranges bodies are generated together with their meaning; an independent model of RFC 7232 and RFC 7233 says '
        'which notices are due')
RULE = 'a case is non-trivial if the model says that at least one notice of this property is due'
ASSUMPTIONS = ['the snapshot of what is known about fields in lib/tables.json']

REQ_OWN = {1119, 1120, 1122, 1130, 1131, 1132, 1133, 1134, 1135, 1148}
RESP_OWN = {1058, 1119, 1121, 1123, 1124, 1125, 1127, 1128, 1129, 1136, 1137, 1138, 1141, 1142, 1143, 1144, 1145, 1146, 1147, 1148, 1149, 1150, 1133, 1200}
OWN = REQ_OWN | RESP_OWN
COUNTED = rules.COUNTED | {1141, 1142}

TAGS = ('ETag', 'If-Match', 'If-None-Match', 'If-Range')


def syntax(msg, v):
    """What the values themselves are blamed for, wherever they occur."""
    tags = []
    for n in TAGS:
        for _, val in msg[n].lines:
            if n == 'ETag' and isinstance(val, tuple):
                tags.append((n,) + val)
            elif n == 'If-Range' and val is not None and val[0] == 'etag':
                tags.append((n,) + val[1])
            elif isinstance(val, list):
                tags += [(n,) + t for t in val]
    v(1119, any('\\' in s for _, _, s in tags), about={n for n, _, s in tags if '\\' in s})
    ranges = [r for _, val in msg['Range'].lines if isinstance(val, tuple) and val[1] is not None for r in val[1]]
    v(1133, any(a is not None and b is not None and b < a for a, b in ranges), about='Range')
    for _, val in msg['Content-Range'].lines:
        if isinstance(val, tuple) and val[0] == 'bytes' and val[1] is not None:
            (a, b), whole = val[1], val[2]
            v(1148, b < a or (whole is not None and whole <= b), about='Content-Range')


def preconditions(req):
    """(the names that count, whether any is there only in the wrong place)"""
    return {n.lower() for n in req.names if proto.info(n, 'precondition') and req[n].present}


def request_model(req, v):
    method = req.data['method']
    syntax(req, v)
    v(1120, any(weak for weak, _ in req['If-Match'].items))
    pre = [n for n in req.names if proto.info(n, 'precondition')]
    v(1131, method == 'HEAD', rules.distinct(pre))
    if method in ('CONNECT', 'OPTIONS', 'TRACE'):
        pre = [n for n in req.names if n.lower() in ('if-match', 'if-none-match', 'if-modified-since', 'if-unmodified-since', 'if-range')]
        v(1130, n=rules.distinct(pre), about=pre)
    if req.ignored:
        v.skip(1131, 1130)
    v(1122, method not in ('CONNECT', 'OPTIONS', 'TRACE', 'GET', 'HEAD') and req['If-Modified-Since'].present)
    v(1132, method != 'GET' and req['Range'].present)
    v(1134, req['If-Range'].present and req['Range'].absent)
    v(1135, req['If-Range'].ok and req['If-Range'].val[0] == 'etag' and req['If-Range'].val[1][0])


def model(resp, req, v):
    s = resp.data['status']
    syntax(resp, v)
    ct = resp['Content-Type']
    ranges = ct.ok and ct.val[0] == 'multipart/byteranges'
    cr = resp['Content-Range']
    etag = resp['ETag'].val if resp['ETag'].ok else None
    if resp.ignored:
        v.skip(1127, 1146)
    if s == 304:
        needless = [n for n in resp.names if proto.info(n, 'representation_metadata') and n.lower() not in ('etag', 'last-modified', 'content-location')]
        v(1127, n=rules.distinct(needless), about=needless)
    if s == 206:
        v(1138, not ranges and cr.absent)
        v(1143, ranges and cr.present)
        parts = resp.data.get('parts')
        if ranges and parts is not None and (req is None or req.data['method'] != 'HEAD'):
            v(1141, n=len([p for p in parts if not p[0]]), about=[str(i) for i, p in enumerate(parts, 1) if not p[0]])
            v(1142, n=len([p for p in parts if not p[1]]), about=[str(i) for i, p in enumerate(parts, 1) if not p[1]])
    v(1147, cr.present and s not in (206, 416, 103))
    if req is None:
        return

    method = req.data['method']
    successful = 200 <= s <= 299
    v(1058, method == 'PUT' and req['Content-Range'].present and successful)
    inm, ims, lm = req['If-None-Match'], req['If-Modified-Since'], resp['Last-Modified']
    if method in ('GET', 'HEAD') and successful:
        if inm.present:
            v(1121, etag is not None and (inm.star is not None or any(etag[1] == tag for _, tag in inm.items)))
        else:
            v(1123, ims.ok and lm.ok and lm.val <= ims.val)
    have = preconditions(req)
    if s == 304 and method not in ('GET', 'HEAD'):
        v(1124)
    elif s in (304, 412):
        if not have:
            v(1125)
        elif have == {'if-modified-since'}:
            v(1128, method not in ('GET', 'HEAD'))
        elif have <= {'if-match', 'if-none-match', 'if-modified-since', 'if-unmodified-since', 'if-range'}:
            v(1129, method in ('CONNECT', 'OPTIONS', 'TRACE'))
    rng, ifr = req['Range'], req['If-Range']
    byte_ranges = rng.val[1] if rng.ok else None
    if s == 206:
        v(1136, rng.absent)
        v(1137, rng.present and method != 'GET')
        v(1144, ranges and byte_ranges is not None and len(byte_ranges) == 1)
        if ifr.ok and ifr.val[0] == 'etag' and etag is not None:
            tag = ifr.val[1]
            v(1145, tag[0] or etag[0] or tag[1] != etag[1])
        if ifr.present:
            needless = [n for n in resp.names if proto.info(n, 'representation_metadata')
                        and n.lower() not in ('etag', 'content-location') and not (n.lower() == 'content-type' and ranges)]
            v(1146, n=rules.distinct(needless), about=needless)
    v(1149, s == 416 and rng.absent)
    v(1150, s == 416 and byte_ranges is not None and cr.absent)
    if req.ignored:
        v.skip(1200)
    v(1200, s == 428 and have, about=have)


TAG = [(25, 'If-Match'), (30, 'If-None-Match'), (30, 'If-Modified-Since'), (12, 'If-Unmodified-Since'), (6, 'If'), (5, 'Overwrite'), (5, 'If-Schedule-Tag-Match')]
RANGE = [(55, 'Range'), (40, 'If-Range'), (12, 'Content-Range')]
META = [(60, 'ETag'), (50, 'Last-Modified'), (15, 'Content-Location'), (12, 'Content-Language'), (8, 'Content-Disposition')]
METHODS = ['GET', 'GET', 'GET', 'GET', 'HEAD', 'PUT', 'POST', 'DELETE', 'OPTIONS', 'CONNECT', 'TRACE', 'PATCH']


def gen_conditional(g):
    req = proto.request(g, TAG + [(4, 'Range'), (4, 'If-Range')], METHODS, noisy=8)
    resp = proto.response(g, META + [(5, 'Content-Range'), (15, 'Content-Type')], [200, 200, 200, 204, 206, 304, 304, 304, 412, 412, 428, 404, 300], noisy=8)
    return {'request': req if g.bool(95) else None, 'responses': [resp] if g.bool(95) else []}


BOUNDARIES = ['a', 'THIS_STRING_SEPARATES', 'x-y', "b'c"]


def multipart(g, boundary):
    parts = []
    raw = g.choice([b'', b'', b'preamble\r\n'])
    for _ in range(g.int(1, 4)):
        has_range, has_type = g.bool(65), g.bool(65)
        head = []
        if has_range:
            head.append(g.choice([b'Content-Range', b'content-range', b'CONTENT-RANGE']) + b': bytes 0-1/5')
        if has_type:
            head.append(g.choice([b'Content-Type', b'content-type']) + b': text/plain')
        if g.bool(25):
            head.append(g.choice([b'X-Content-Range: x', b'Foo: Content-Range: x', b'Content-Type-Options: x', b'Content-Ranges: 1', b'Via: 1.1 a']))
        head = g.shuffle(head)
        raw += b'--' + boundary.encode() + b'\r\n' + b''.join(h + b'\r\n' for h in head) + b'\r\n' + \
            g.choice([b'he', b'Content-Range: bytes 1-2/3', b'Content-Type: x\r\nContent-Range: y', b'']) + b'\r\n'
        parts.append((has_range, has_type))
    return raw + b'--' + boundary.encode() + b'--' + g.choice([b'\r\n', b'', b'\r\nepilogue']), parts


def gen_ranges(g):
    req = proto.request(g, RANGE + [(6, 'If-Match'), (6, 'If-None-Match')], ['GET'] * 8 + METHODS, noisy=8)
    resp = proto.response(g, META + [(45, 'Content-Range')], [206, 206, 206, 206, 416, 416, 200, 201, 204, 404, 103, 100], noisy=8)
    if g.bool(40):
        boundary = g.choice(BOUNDARIES)
        raw, parts = multipart(g, boundary)
        shown = proto.arg(g, boundary, 50)[0]
        resp['headers'] = [h for h in resp['headers'] if h[0].lower() not in ('content-type', 'content-encoding')]
        resp['headers'].append(('Content-Type', b'multipart/byteranges; boundary=' + shown, ('multipart/byteranges', [('boundary', boundary, False)])))
        resp['trailers'] = None
        resp['body'] = raw
        resp['parts'] = parts
    return {'request': req if g.bool(95) else None, 'responses': [resp] if g.bool(95) else []}


def gen_values(g):
    """Every line counts, even if there are several."""
    req = proto.request(g, [(40, n) for n in ('If-Match', 'If-None-Match', 'If-Range', 'Range', 'Content-Range')], METHODS, noisy=0, repeat=30)
    resp = proto.response(g, [(40, n) for n in ('ETag', 'Content-Range')], [200, 206, 416], noisy=0, repeat=30)
    return {'request': req, 'responses': [resp]}


def gen_ignored(g):
    """Preconditions that should have led to a 304."""
    req = proto.request(g, [(55, 'If-None-Match'), (70, 'If-Modified-Since'), (8, 'If-Match'), (20, 'Content-Range')], ['GET', 'GET', 'GET', 'HEAD', 'POST', 'PUT', 'PUT'], noisy=3)
    resp = proto.response(g, [(75, 'ETag'), (75, 'Last-Modified')], [200, 200, 200, 204, 206, 226, 203, 304, 404, 412], noisy=3)
    return {'request': req, 'responses': [resp]}


def check(case):
    return rules.judge(case, REQ_OWN, RESP_OWN, request_model, model, COUNTED)


PARTS = [Part('conditional', gen_conditional, check, 10000), Part('ranges', gen_ranges, check, 12000), Part('values', gen_values, check, 3000), Part('ignored', gen_ignored, check, 5000)]
