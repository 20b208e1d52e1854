"""C01: any exchange can be checked and reported without failing."""
import io
import re

import httpolice
from lib import proto, seeds, wild
from lib.core import Part, require, sut
from props import c12, c13

PID = 'C01'
TECHNIQUE = 'fuzzing with structured, odd and junk values in every part of exchanges; oracle: no exception, UTF-8 output'
NOTE = ('Random sampling. A message is wild in every position at once; deep combinations are reached through '
        'hand-picked values per header.')
RULE = ('exchanges whose every part is drawn from grammar samples, hand-picked tricky values, mutations and junk; '
        'non-trivial when some message has at least two headers or a non-empty body')


def check(case):
    exch = sut('constructing', wild.build, case)
    sut('check_exchange', httpolice.check_exchange, exch)
    for what, f in [('text_report', httpolice.text_report), ('html_report', httpolice.html_report)]:
        buf = io.BytesIO()
        sut(what, f, [exch], buf)
        try:
            buf.getvalue().decode('utf-8')
        except UnicodeError as e:
            require(False, '%s is not UTF-8: %s', what, e)
    msgs = ([case['request']] if case['request'] else []) + case['responses']
    n = sum(len(x) for x in wild.ids(exch)[1]) + len(wild.ids(exch)[0] or [])
    labels = ['notices: %s' % ('0' if n == 0 else '1-5' if n < 6 else '6-15' if n < 16 else '16+')]
    labels += ['notice %d' % i for m in ([exch.request] if exch.request else []) + exch.responses
               for i in {x.id for x in m.notices}]
    return any(len(m['headers']) > 1 or m['body'] for m in msgs), labels


def one(headers=(), body=b'', status=200, req_headers=(), target='/', trailers=None):
    return {'request': {'scheme': 'http', 'method': 'POST', 'target': target, 'version': 'HTTP/1.1',
                        'headers': [('Host', b'a')] + list(req_headers), 'body': body if req_headers else b'',
                        'trailers': None},
            'responses': [{'version': 'HTTP/1.1', 'status': status, 'reason': 'x', 'headers': list(headers),
                           'body': body, 'trailers': trailers}]}


DATE = b'Sun, 06 Nov 1994 08:49:37 GMT'
# The smallest inputs of the defects that were found and repaired.
PINNED = [
    one([('Content-Length', b'9' * 5000)]), one([('Age', b'9' * 20), ('Date', DATE)]),
    one([('Age', b'1'), ('Date', b'Fri, 31 Dec 9999 23:59:59 GMT')]),
    one([('Location', b'http://[V1.a]/')], status=302), one([('Content-Location', b'//[::1%25a%20]')]),
    one(target='http://[V1.a]/'), one(req_headers=[('Referer', b'http://[V1.a]/')]),
    one([('Content-Type', b'application/json')], b'[' * 100000), one([('Content-Type', b'application/json')], b'1' * 6000),
    one([('Content-Type', b'text/plain; charset=base64')], b'abc'), one([('Content-Type', b'text/plain; charset=idna')], b'\xff'),
    one([('Content-Type', b'text/xml')], b'<?xml version="1.0" encoding="foo"?><a/>'),
    one([('Content-Type', b'text/xml')], b'<?xml version="1.0" encoding="utf-32"?><a/>'),
    one([('Server', b'a ' + b'(' * 3000 + b')' * 3000)]), one([('Link', b'<a>; rel; hreflang; title*')]),
    one([('Link', b'<a>; rel="'b'%"')], status=451),
]

def gen_typed(g):
    """Parts that belong together, with at most a few changes."""
    if g.bool(35):
        c = proto.plain(c13.gen(g) if g.bool(70) else c12.gen(g))
        case = {'request': c['request'] and {k: c['request'][k] for k in seeds.REQUEST}, 'responses': [{k: r[k] for k in seeds.RESPONSE} for r in c['responses']]}
    else:
        case = seeds.typed(g)
    msgs = seeds.messages(case)
    for _ in range(g.choice([0, 1, 1, 2, 3]) if msgs else 0):
        msg = g.choice(msgs)
        msg['headers'].insert(g.int(0, len(msg['headers'])), proto.field(g, g.choice(INTERESTING), 10)[:2])
    return case


INTERESTING = sorted(proto.GENS)
CODES = sorted(proto.ALL_STATUSES) + [s for s in wild.STATUSES if s not in proto.ALL_STATUSES]
VERBS = sorted(proto.METHODS)


# Fields about which something is said for particular statuses and methods.
AFFINITY = {101: ['Upgrade', 'Connection', 'HTTP2-Settings'], 201: ['Location', 'Content-Location'], 206: ['Content-Range', 'Content-Type', 'ETag', 'Range'],
            304: ['ETag', 'Last-Modified', 'Content-Location', 'Expires', 'Vary'], 401: ['WWW-Authenticate', 'Authorization'], 407: ['Proxy-Authenticate'],
            405: ['Allow'], 406: ['Accept', 'Vary'], 408: ['Connection'], 413: ['Retry-After'], 415: ['Accept-Patch', 'Accept-Post', 'Accept-Encoding'],
            416: ['Content-Range', 'Range'], 417: ['Expect'], 421: ['Alt-Svc', 'Alt-Used'], 426: ['Upgrade', 'Connection'], 429: ['Retry-After'], 451: ['Link'],
            503: ['Retry-After', 'Date'], 412: ['If-Match', 'If-Unmodified-Since', 'ETag'], 301: ['Location'], 302: ['Location'], 307: ['Location'], 308: ['Location'],
            200: ['Cache-Control', 'Content-Type', 'Age', 'Warning', 'Expires', 'Strict-Transport-Security', 'Preference-Applied'],
            'PATCH': ['Content-Type', 'Accept-Patch'], 'OPTIONS': ['Allow', 'Max-Forwards'], 'TRACE': ['Max-Forwards', 'Cookie', 'Authorization'],
            'CONNECT': ['Host', 'Transfer-Encoding'], 'PUT': ['Content-Range', 'If-Match'], 'GET': ['Range', 'If-Range', 'If-None-Match', 'Upgrade', 'Referer', 'TE']}

SPECIAL = [s for s in AFFINITY if isinstance(s, int)]


def gen_small(g):
    """Every status and method with every field, in small messages."""
    def line(key):
        k = g.int(0, 9)
        if key in AFFINITY and g.bool(40):
            name = g.choice(AFFINITY[key])
        else:
            name = g.choice(INTERESTING) if k < 7 else wild.name(g)
        return proto.field(g, name, 10)[:2] if k < 4 else (name, wild.value(g, name))
    body = lambda: g.choice([b'', b'', b'x', None, wild.UNAVAILABLE])
    req = None
    if g.bool(60):
        method = g.choice(VERBS) if g.bool(40) else g.choice(proto.COMMON_METHODS)
        req = {'scheme': g.choice(['http', 'https', None]), 'method': method, 'target': g.choice(wild.TARGETS[:8]),
               'version': g.choice(wild.VERSIONS[:4]), 'headers': g.list(lambda: line(method), 0, 3), 'body': body(), 'trailers': None}
    resps = []
    if req is None or g.bool(70):
        for _ in range(g.weighted([(85, 1), (15, 2)])):
            status = g.choice(CODES) if g.bool(60) else g.choice(SPECIAL)
            resps.append({'version': g.choice(wild.VERSIONS[:4]), 'status': status, 'reason': 'x', 'headers': g.list(lambda: line(status), 1, 3), 'body': body(),
                          'trailers': None})
    return {'request': req, 'responses': resps}


DAMAGE = [b'"', b'(', b'\xff', b'=', b'x', b',', b'', b';', b'a b', b'0', b'*', b'-1', b'a/b', b'@']


PARAM = re.compile(rb'=("(?:[^"\\\\]|\\\\.)*"|[^\s;,"]+)')
# Arguments that are well-formed, or nearly so, but seldom seen.
ARGUMENTS = [b'"\xe9"', b'"\xff\xfe"', b'""', b'"\\""', b'"\\\\"', b'"a, b; c=d"', b'"\t"', b'0', b'"%ff"', b"UTF-8''%ff", b"utf-8'en'%e2%82%ac", b"x''a", b'"[::1]"',
             b'"unknown"', b'*', b'1.', b'"-1"', b'99999999999999999999', b'"http://["', b'""x', b'"', b"''", b'%', b'=', b'"\xc3\xa9"', b'a' * 300]

PAYLOADS = [b'multipart/mixed; boundary=a', b'multipart/form-data; boundary="a"', b'multipart/byteranges; boundary=a; charset=utf-8', b'application/json; charset=utf-8',
            b'text/xml; charset=utf-8', b'text/plain; charset=utf-8', b'application/x-www-form-urlencoded; charset=utf-8']


def gen_damaged(g):
    """Everything in place, except that one or two fields are malformed, empty, repeated or gone."""
    k = g.int(0, 9)
    if k < 3:
        c = g.choice(seeds.corpus())
        case = {'request': seeds.copy(c['request']) if c['request'] else None, 'responses': [seeds.copy(r) for r in c['responses']]}
    else:
        case = seeds.typed(g)
    places = [(m, i) for m in seeds.messages(case) for i in range(len(m['headers']))]
    if not places:
        return case
    chosen = g.sample(places, min(len(places), g.choice([1, 1, 1, 2, 3])))
    if g.bool(12):
        # Fields whose arguments decide how the body is read.
        m = g.choice(seeds.messages(case))
        m['headers'] = [x for x in m['headers'] if x[0].lower() != 'content-type'] + [('Content-Type', g.choice(PAYLOADS))]
        chosen = [(n, i) for n, i in chosen if n is not m] + [(m, len(m['headers']) - 1)]
        if g.bool():
            m['body'] = g.choice([b'--a\r\n\r\nx\r\n--a--\r\n', b'{"a": 1}', b'<a/>', b'a=1', b'\xe9', b''])
    for m, i in chosen:
        name, value = m['headers'][i]
        k = g.int(0, 19)
        params = [x for x in PARAM.finditer(value)] if isinstance(value, bytes) and k >= 7 else []
        if params and k < 17:
            x = g.choice(params)
            m['headers'][i] = (name, value[:x.start(1)] + g.choice(ARGUMENTS) + value[x.end():])
        elif k < 15:
            m['headers'][i] = (name, g.choice(DAMAGE[:5] if k < 8 else DAMAGE))
        elif k < 17:
            m['headers'][i] = ('X-Gone', value)
        elif k == 17:
            m['headers'][i] = (name, (value.encode('latin-1', 'replace') if isinstance(value, str) else value) + g.choice(DAMAGE))
        else:
            m['headers'].append((name, g.choice(DAMAGE)))
    if g.bool(10):
        m = g.choice(seeds.messages(case))
        m['body'] = g.choice([b'', None, wild.UNAVAILABLE, b'\xff'])
    return case


PARTS = [
    Part('damaged', gen_damaged, check, 20000),
    Part('seeds', seeds.exchange, check, 6000, pinned=PINNED),
    Part('typed', gen_typed, check, 8000),
    Part('small', gen_small, check, 24000),
    Part('wild', wild.exchange, check, 2500),
]
