"""Authentication verdicts follow from credentials, challenges and TLS."""
import base64
import string

from lib import proto, rules
from lib.core import Part

PID = 'C17'
TECHNIQUE = 'property-based testing of generated credentials and challenges against a reference model of the authentication rules'
NOTE = ('credentials, challenges, tokens in URIs and in forms are generated together with their meaning; an independent model of RFC 7235, RFC 7617 and RFC 6750 '
        'says which notices are due')
RULE = 'a case is non-trivial if the model says that at least one notice of this property is due'

REQ_OWN = {1196, 1209, 1210, 1211, 1212, 1261, 1262, 1270, 1271, 1272, 1274}
RESP_OWN = {1194, 1195, 1196, 1206, 1207, 1208, 1263, 1264, 1265, 1266, 1267, 1268, 1269, 1273}
OWN = REQ_OWN | RESP_OWN
COUNTED = rules.COUNTED | {1206, 1207, 1208, 1212, 1265, 1266, 1269}

ALPHABET = string.ascii_uppercase + string.ascii_lowercase + string.digits + '+/'


def unbase64(s):
    """RFC 4648 section 4, padding included; None if it is not that. Stray bits at the end are let through."""
    core = s.rstrip('=')
    pad = len(s) - len(core)
    if any(c not in ALPHABET for c in core) or pad > 2 or len(s) % 4:
        return None
    bits = ''.join(format(ALPHABET.index(c), '06b') for c in core)
    return bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits) - 7, 8))


def nq(s, extra=''):
    """1*NQSCHAR, or 1*NQCHAR with nothing extra."""
    return bool(s) and all(c in extra or ('!' <= c <= '~' and c not in '"\\') for c in s)


def well_formed(name, value):
    if name == 'scope':
        return all(nq(t) for t in value.split(' '))
    if name in ('error', 'error_description'):
        return nq(value, ' ')
    return value in GOOD_URIS


GOOD_URIS = ['http://a.com/x', '/x', '', 'x?y#z', '#', '//a', 'urn:a:b', 'a:', '?', './a:b', '%41', "!$&'()*+,;=", 'http://[::1]/']
BAD_URIS = ['a b', '%zz', '%', '\xe9', 'a\\b', '<a>', 'http://[::1', 'a##b', '{a}', ' ', 'x"y', 'a\tb', '1:a', ':a', '^', '|', '`']


def realms(msg, v):
    names = set()
    for name in ('Authorization', 'Proxy-Authorization'):
        for _, val in msg[name].lines:
            if isinstance(val, tuple) and val[1] == 'params':
                names |= {name} if any(p == 'realm' and not q for p, _, q in val[2]) else set()
    for name in ('WWW-Authenticate', 'Proxy-Authenticate'):
        for _, val in msg[name].lines:
            if isinstance(val, list):
                names |= {name} if any(kind == 'params' and any(p == 'realm' and not q for p, _, q in data) for _, kind, data in val) else set()
    v(1196, names, about=names)


def form_token(req):
    """Whether there is a token in the form in the body; None if there is no telling."""
    ct = req['Content-Type']
    if not ct.ok or ct.val[0] != 'application/x-www-form-urlencoded' or not isinstance(req.body, bytes):
        return False
    return bool(req.data.get('form_token'))


def query_token(req):
    return req.data['form'] in ('origin', 'absolute') and bool(req.data.get('query_token'))


def request_model(req, v):
    scheme = req.data['scheme']
    realms(req, v)
    if req['Authorization'].ok and req['Proxy-Authorization'].ok:
        v.loose.add(1212)
    for name in ('Authorization', 'Proxy-Authorization'):
        field = req[name]
        if not field.ok:
            continue
        auth, kind, data = field.val
        if auth == 'Basic':
            if kind == 'token68':
                plain = unbase64(data)
                core = data.rstrip('=')
                if plain is None and len(core) % 4 == 0 and unbase64(core) is not None:
                    # Well-formed but for padding that is not needed: some decoders let it through.
                    v.skip(1210, 1211, 1212)
                elif plain is None:
                    v(1210, about=name)
                else:
                    v(1211, b':' not in plain, about=name)
                    controls = {c for c in plain if c < 32 or c == 127}
                    v(1212, n=len(controls), about=name)
            else:
                v(1209, about=name)
        elif auth == 'Bearer':
            v(1261, scheme == 'http')
            v(1262, kind != 'token68')
        else:
            v(1274, kind == 'none', about=name)
    if query_token(req):
        v(1270)
        v(1271, scheme == 'http')
        no_store = rules.cc(req, 'no-store')
        if no_store == rules.UNKNOWN:
            v.skip(1272)
        v(1272, not no_store)
    v(1271, form_token(req) and scheme == 'http')


def model(resp, req, v):
    s = resp.data['status']
    realms(resp, v)
    v(1194, s == 401 and resp['WWW-Authenticate'].absent)
    v(1195, s == 407 and resp['Proxy-Authenticate'].absent)
    for name in ('WWW-Authenticate', 'Proxy-Authenticate'):
        for scheme, kind, data in resp[name].items:
            if scheme == 'Basic':
                if kind == 'token68':
                    v(1273, about=name)
                    continue
                names = [n for n, _, _ in data]
                v(1206, 'realm' not in names, about=name)
                charsets = {x for n, x, _ in data if n == 'charset' and x.lower() != 'utf-8'}
                v(1208, n=len(charsets), about=[(name, x) for x in charsets])
                odd = set(names) - {'realm', 'charset'}
                v(1207, n=len(odd), about=[(name, x) for x in odd])
            elif scheme == 'Bearer' and name == 'WWW-Authenticate':
                bearer(resp, req, kind, data, v)
    # The same said of two challenges may be said once.
    if len(resp['WWW-Authenticate'].items) + len(resp['Proxy-Authenticate'].items) > 1:
        v.loose |= {1206, 1207, 1208, 1265, 1266, 1269}


def bearer(resp, req, kind, data, v):
    s = resp.data['status']
    v(1263, req is not None and req.data['scheme'] == 'http')
    if kind != 'params':
        v(1264)
        return
    names = [n for n, _, _ in data]
    first = {}
    for n, x, _ in data:
        first.setdefault(n, x)
    twice = {n for n in names if names.count(n) > 1 and n in ('realm', 'scope', 'error', 'error_description', 'error_uri')}
    v(1265, n=len(twice), about=twice)
    bad = [n for n in ('scope', 'error', 'error_description', 'error_uri') if n in first and not well_formed(n, first[n])]
    v(1266, n=len(bad), about=bad)
    error = first.get('error')
    expected = {'invalid_request': 400, 'invalid_token': 401, 'insufficient_scope': 403}.get(error, s)
    v(1268, expected != s, about=(error, str(expected)))
    if req is None:
        return
    auth = req['Authorization']
    v(1267, s == 401 and error is None and auth.ok and auth.val[0] == 'Bearer')
    if auth.absent and not query_token(req) and not form_token(req):
        needless = {'error', 'error_description', 'error_uri'} & set(first)
        v(1269, n=len(needless), about=needless)


# ------------------------------------------------------------------ generators

PIECES = [b'a', b':', b'user', b':', b' ', b'\x00', b'\n', b'\x1f', b'\x7f', b'\x80', b'\xc3\xa9', b'~', b'\x85', b'?>', b'\xff\xff', b'=']


def basic_token(g):
    raw = b''.join(g.list(lambda: g.choice(PIECES), 1, 5))
    t = base64.b64encode(raw).decode()
    k = g.int(0, 19)
    if k == 0:
        t = t.rstrip('=')
    elif k == 1:
        t += g.choice(['=', '==', '===', '===='])
    elif k == 2:
        i = g.int(0, len(t.rstrip('=')) - 1)
        t = t[:i] + g.choice(['-', '_', '.', '~', 'A', '/', '']) + t[i:]
    elif k == 3:
        t = t.replace('+', '-').replace('/', '_')
    return t if t.rstrip('=') else 'YQ=='


def credentials(g):
    scheme = g.weighted([(45, 'Basic'), (35, 'Bearer'), (20, 'Digest')])
    k = g.int(0, 99)
    if k < 70 and scheme == 'Basic':
        t = basic_token(g)
    elif k < 80:
        t = proto.token68(g)
    else:
        return proto.credentials(g)
    return proto.cased(g, scheme).encode() + g.choice([b' ', b' ', b'  ']) + t.encode(), (scheme, 'token68', t)


CHARS = [' ', '!', '"', '#', '[', '\\', ']', '~', '\t', '\xe9', 'a', 'B', '0', '  ', 'read']


def bearer_param(g):
    n = g.choice(['scope', 'scope', 'error', 'error', 'error', 'error_description', 'error_uri', 'realm', 'foo', 'charset'])
    if n == 'error_uri':
        return n, g.choice(GOOD_URIS if g.bool() else BAD_URIS)
    if n == 'error' and g.bool(80):
        return n, g.choice(['invalid_request', 'invalid_token', 'insufficient_scope', 'invalid_scope', 'Invalid_Token'])
    if g.bool(40):
        return n, g.choice(['a', 'a b', 'read write', 'x', 'utf-8'])
    return n, ''.join(g.list(lambda: g.choice(CHARS), 0, 4))


BASIC = [('realm', 'x'), ('realm', 'x'), ('realm', 'a b'), ('realm', ''), ('charset', 'UTF-8'), ('charset', 'utf-8'), ('charset', 'Utf-8'), ('charset', 'utf8'), ('charset', 'iso-8859-1'),
         ('charset', ''), ('foo', 'x'), ('title', 'y'), ('realms', 'x'), ('scope', 'a'), ('error', 'invalid_token'), ('utf-8', 'charset')]


def challenges(g):
    parts, out = [], []
    for _ in range(g.weighted([(75, 1), (18, 2), (7, 3)])):
        scheme = g.weighted([(40, 'Basic'), (45, 'Bearer'), (8, 'Digest'), (7, 'Foo')])
        shown = proto.cased(g, scheme).encode()
        k = g.int(0, 19)
        if k < 1:
            kind, data, raw = 'none', [], b''
        elif k < 3:
            kind, data = 'token68', g.choice(['abc', 'YTpi=', 'a-b=', 'realm', 'YTpi'])
            raw = b' ' + data.encode()
        else:
            kind = 'params'
            pool = [bearer_param(g) for _ in range(3)] if scheme == 'Bearer' else BASIC if scheme == 'Basic' else proto.CHALLENGE[scheme]
            raw, data = proto.auth_params(g, pool, 1, 4)
            raw = b' ' + raw
        parts.append(shown + raw)
        out.append((scheme, kind, data))
    return b', '.join(parts), out


# (text, whether it is a token)
ITEMS = [('access_token=abc', True), ('access_token=abc', True), ('access%5Ftoken=a', True), ('%61ccess_token=%61', True), ('access_token=a=b', True),
         ('Access_Token=x', False), ('xaccess_token=x', False), ('access_tokens=x', False), ('a=access_token', False), ('access-token=x', False), ('access+token=x', False),
         ('a=b', False), ('', False), ('token=x', False), ('x', False), ('access_token%3Dx=y', False), ('access_token%26=y', False)]


def items(g):
    chosen = [g.choice(ITEMS) for _ in range(g.int(1, 3))]
    return '&'.join(c[0] for c in chosen), any(c[1] for c in chosen)


def gen(g):
    req = proto.request(g, [(35, 'Authorization', credentials), (12, 'Proxy-Authorization', credentials), (20, 'Cache-Control', proto.cache_control(['no-store', 'no-store', 'no-cache', 'max-age']))],
                        noisy=8)
    if g.bool(25):
        query, token = items(g)
        if g.bool(8):
            query = 'x?' + query
            token = token and '&' in query and any(c.split('=')[0] in ('access_token', 'access%5Ftoken', '%61ccess_token') for c in query.split('&')[1:])
        req['target'], req['form'] = g.choice([('/?' + query, 'origin'), ('/x?' + query, 'origin'), ('http://a.com/?' + query, 'absolute'), ('https://a.com?' + query, 'absolute'),
                                               ('*?' + query, None), ('a b?' + query, None), ('//x?' + query, 'origin'), ('/access_token=x', 'origin')])
        if req['method'] == 'CONNECT' and req['form'] != 'authority':
            req['form'] = None
        req['query_token'] = token and req['target'] != '/access_token=x'
    if g.bool(25):
        form, token = items(g)
        if g.bool(10):
            form += g.choice(['&a=b c', '&a="b"', '&\xe9', '&a=b\r\n', '&a=b/c'])
            token = False
        form = form.replace('-', g.choice(['-', '.', '*']))
        req['body'] = form.encode('latin-1')
        if form:
            req['headers'] = [h for h in req['headers'] if h[0].lower() != 'content-type']
        if form and g.bool(90):
            req['headers'].append(proto.field(g, 'Content-Type', 0, proto.content_type(['application/x-www-form-urlencoded'] * 8 + ['text/plain', 'multipart/form-data'])))
        req['form_token'] = token
    elif isinstance(req['body'], bytes):
        req['form_token'] = False
    resps = []
    for _ in range(g.weighted([(10, 0), (80, 1), (10, 2)])):
        resps.append(proto.response(g, [(60, 'WWW-Authenticate', challenges), (25, 'Proxy-Authenticate', challenges)], [401, 401, 401, 407, 400, 403, 200, 103, 100, 302], noisy=8))
    return {'request': req if g.bool(96) else None, 'responses': resps}


def check(case):
    return rules.judge(case, REQ_OWN, RESP_OWN, request_model, model, COUNTED)


PARTS = [Part('exchanges', gen, check, 22000)]
