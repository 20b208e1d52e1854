"""Messages whose header fields are generated together with their meaning.

A header line is ``(name, raw value, meaning)``. The meaning is plain data made by the same generator that wrote the raw value,
so no parser stands between the two; ``BAD`` marks a raw value that breaks the grammar of its field. ``Msg`` combines the lines
into fields by the rules of RFC 7230 section 3.2.2 and what README-level documentation says about repeated fields.
"""
import json
import os

from lib import wild

BAD = '!bad'
UNAVAILABLE = wild.UNAVAILABLE
TABLES = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tables.json')))
HEADERS = TABLES['headers']
LOWER = {k.lower(): k for k in HEADERS}
METHODS = TABLES['methods']
STATUSES = TABLES['statuses']
TYPES = {k.lower(): v for k, v in TABLES['media_types'].items()}


def info(name, key):
    canonical = LOWER.get(name.lower())
    return None if canonical is None else HEADERS[canonical].get(key)


def method_info(name, key):
    return METHODS.get(name, {}).get(key)


# ------------------------------------------------------------------ reading a message

class Field:
    """All the lines of one name that count."""

    def __init__(self, name, lines):
        self.name = name
        self.lines = lines
        self.present = bool(lines)
        self.absent = not lines
        self.n = len(lines)
        vals = [v for _, v in lines]
        self.star = None
        self.items = []
        self.spoiled = False            # a list field in which singular values are mixed with others
        self.val = vals[-1] if vals else None
        self.ok = bool(vals) and self.val != BAD
        if info(name, 'rule') != 'single':
            alone = [v for v in vals if isinstance(v, str) and v != BAD]
            if alone and len(vals) == 1:
                self.star = alone[0]
            elif alone:
                self.spoiled = True
            else:
                self.items = [x for v in vals if isinstance(v, list) for x in v]
        self.bad = BAD in vals
        self.truthy = self.bad or bool(self.items) or self.star is not None or self.spoiled


class Msg:
    def __init__(self, data):
        self.data = data
        self.body = data['body']
        self.version = data['version']
        self.lines = [(n, raw, v, False) for n, raw, v in data['headers']]
        self.lines += [(n, raw, v, True) for n, raw, v in data['trailers'] or []]
        self.trailers = data['trailers'] or []
        self._fields = {}
        # Distinct names, as they first occur, including those that occur only where they may not.
        self.names = []
        for n, _, _, _ in self.lines:
            if n.lower() not in [x.lower() for x in self.names]:
                self.names.append(n)
        self.ignored = [n for n, _, _, t in self.lines if t and info(n, 'bad_for_trailer')]
        self.has_payload = self.body is None or self.body == UNAVAILABLE or len(self.body) > 0

    def __getitem__(self, name):
        key = name.lower()
        if key not in self._fields:
            self._fields[key] = Field(name, [(raw, v) for n, raw, v, t in self.lines
                                             if n.lower() == key and not (t and info(n, 'bad_for_trailer'))])
        return self._fields[key]

    def has(self, name, token):
        """Whether a list of case-insensitive tokens has this one."""
        return token.lower() in [x.lower() for x in self[name].items]

    @property
    def body_known_nonempty(self):
        return self.body is not None and len(self.body) > 0

    @property
    def body_known_empty(self):
        return self.body == b''


def plain(case):
    """The case without meanings, for wild.build."""
    def strip(m):
        m = dict(m)
        m['headers'] = [(n, raw) for n, raw, _ in m['headers']]
        if m['trailers'] is not None:
            m['trailers'] = [(n, raw) for n, raw, _ in m['trailers']]
        return m
    return {'request': strip(case['request']) if case['request'] else None, 'responses': [strip(r) for r in case['responses']]}


# ------------------------------------------------------------------ writing values

def cased(g, s, percent=12):
    if g.bool(percent):
        return g.choice([s.lower(), s.upper(), s.title(), s.swapcase()])
    return s


def joined(g, parts):
    """A comma-separated list, possibly with odd (legal) spacing and empty elements."""
    if g.bool(75):
        return b', '.join(parts)
    out = b''
    for i, p in enumerate(parts):
        if i:
            out += g.choice([b',', b' ,', b',\t', b', ,', b' , '])
        out += p
    return (b', ' if g.bool(5) and parts else b'') + out + (b',' if g.bool(5) and parts else b'')


def quoted(s, g=None):
    if isinstance(s, str):
        s = s.encode('latin-1')
    out = b''
    for i in range(len(s)):
        c = s[i:i + 1]
        out += b'\\' + c if c in b'"\\' or (g is not None and g.bool(2)) else c
    return b'"' + out + b'"'


TOKEN_CHARS = set("!#$%&'*+-.^_`|~0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz")


def is_token(s):
    return bool(s) and all(c in TOKEN_CHARS for c in s)


def arg(g, s, quote=20):
    """A token or quoted-string for s: (raw, was it quoted)."""
    if not is_token(s) or g.bool(quote):
        return quoted(s, g), True
    return s.encode(), False


def tokens(pool, lo=1, hi=3):
    def gen(g):
        items = [cased(g, g.choice(pool), 6) for _ in range(g.int(lo, hi))]
        return joined(g, [i.encode() for i in items]), items
    return gen


def starred(pool, star='*', percent=20):
    inner = tokens(pool)

    def gen(g):
        return (star.encode(), star) if g.bool(percent) else inner(g)
    return gen


def fixed(*pairs):
    return lambda g: g.choice(pairs)


def strings(*values):
    return lambda g: (lambda v: (v.encode('latin-1'), v))(g.choice(values))


def number(*values):
    def gen(g):
        n = g.choice(values)
        return (b'0' if g.bool(4) else b'') + b'%d' % n, n
    return gen


# Dates are all between 1994 and 2015 here; the meaning is the number of seconds since the epoch.
_DAYS = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
_MONTHS = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']
_LENGTHS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def write_date(t):
    days, rest = divmod(t, 86400)
    n, y = days, 1970
    while True:
        leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
        if n < 365 + leap:
            break
        n -= 365 + leap
        y += 1
    m = 0
    while n >= _LENGTHS[m] + (m == 1 and leap):
        n -= _LENGTHS[m] + (m == 1 and leap)
        m += 1
    return b'%s, %02d %s %04d %02d:%02d:%02d GMT' % (
        _DAYS[(days + 3) % 7].encode(), n + 1, _MONTHS[m].encode(), y, rest // 3600, rest // 60 % 60, rest % 60)


T0 = 784111777          # Sun, 06 Nov 1994 08:49:37 GMT
OFFSETS = [0, 0, 0, 1, -1, 59, 60, 61, 600, 3600, 86400, 86401, -60, -86400, 10 * 86400, -3650 * 86400]


def date(g):
    t = T0 + 3650 * 86400 + g.choice(OFFSETS)
    return write_date(t), t


# Entity tags
def etag_(g, weak=35):
    w = g.bool(weak)
    s = g.choice(['a', 'a', 'b', '', 'a\\b', '\xff', 'W/', '*', 'A'])
    return (b'W/' if w else b'') + b'"' + s.encode('latin-1') + b'"', (w, s)


def etags(g):
    if g.bool(15):
        return b'*', '*'
    parts = [etag_(g) for _ in range(g.int(1, 3))]
    return joined(g, [p[0] for p in parts]), [p[1] for p in parts]


def if_range(g):
    if g.bool(65):
        raw, v = etag_(g)
        return raw, ('etag', v)
    raw, v = date(g)
    return raw, ('date', v)


# Ranges
def byte_range(g):
    k = g.int(0, 9)
    if k < 5:
        a, b = g.choice([0, 1, 5, 10, 100]), g.choice([0, 1, 5, 10, 99, 100])
        return b'%d-%d' % (a, b), (a, b)
    if k < 8:
        a = g.choice([0, 1, 500])
        return b'%d-' % a, (a, None)
    n = g.choice([0, 1, 500])
    return b'-%d' % n, (None, n)


def range_(g):
    if g.bool(12):
        u = g.choice(['foo', 'pages', 'byte'])
        return u.encode() + b'=' + g.choice([b'1-2', b'5-1', b'x', b'1-2,3-4']), (u, None)
    parts = [byte_range(g) for _ in range(g.weighted([(60, 1), (30, 2), (10, 3)]))]
    return cased(g, 'bytes').encode() + b'=' + joined(g, [p[0] for p in parts]), ('bytes', [p[1] for p in parts])


def content_range(g):
    if g.bool(10):
        u = g.choice(['foo', 'pages'])
        return u.encode() + b' ' + g.choice([b'1-2/3', b'5-1/2', b'', b'x y']), (u, None, None)
    u = cased(g, 'bytes').encode()
    if g.bool(15):
        n = g.choice([0, 5, 100])
        return u + b' */%d' % n, ('bytes', None, n)
    a, b = g.choice([0, 1, 5, 10]), g.choice([0, 1, 5, 10, 99])
    if g.bool(25):
        return u + b' %d-%d/*' % (a, b), ('bytes', (a, b), None)
    n = g.choice([b + 1, b, b + 100, 5, 11, 0])
    return u + b' %d-%d/%d' % (a, b, n), ('bytes', (a, b), n)


# Cache-Control
DIRECTIVES = sorted(TABLES['directives'])
NUMERIC = ['max-age', 'max-stale', 'min-fresh', 's-maxage', 'stale-if-error', 'stale-while-revalidate']
LISTED = ['no-cache', 'private']


def directive(g, names=None, strict=88):
    name = g.choice(names or DIRECTIVES)
    if g.bool(5):
        name = g.choice(['foo', 'post-check', 'x'])
    argument = None
    if g.bool(strict) and name in TABLES['directives']:
        need = TABLES['directives'][name]['argument']
        if need == 'required' or (need == 'optional' and g.bool(35)):
            if name in NUMERIC:
                argument = str(g.choice([0, 1, 10, 59, 60, 61, 600, 3600, 86400, 31536000]))
            else:
                argument = g.choice(['set-cookie', 'Set-Cookie, Via', '', 'a'])
    elif g.bool(60):
        argument = g.choice(['60', 'x', '', '-1', 'a b', 'Set-Cookie, Foo', '1 2', 'a,', '010', '(a)', '1.5'])
    shown = cased(g, name)
    if argument is None:
        return shown.encode(), (name, None, False)
    if name in LISTED and is_token(argument) and g.bool(50):
        raw, q = quoted(argument, g), True
    else:
        raw, q = arg(g, argument, 15)
    return shown.encode() + b'=' + raw, (name, argument, q)


def cache_control(names=None, strict=88, lo=1, hi=3):
    def gen(g):
        parts = [directive(g, names, strict) for _ in range(g.int(lo, hi))]
        return joined(g, [p[0] for p in parts]), [p[1] for p in parts]
    return gen


def pragma(g):
    parts = []
    for _ in range(g.weighted([(80, 1), (20, 2)])):
        if g.bool(65):
            parts.append((cased(g, 'no-cache').encode(), ('no-cache', None)))
        else:
            n = g.choice(['foo', 'no-store', 'no', 'nocache', 'no-cache2'])
            if g.bool(40):
                raw, _ = arg(g, 'a')
                parts.append((n.encode() + b'=' + raw, (n, 'a')))
            else:
                parts.append((n.encode(), (n, None)))
    return joined(g, [p[0] for p in parts]), [p[1] for p in parts]


WARN_CODES = [110, 111, 112, 113, 199, 214, 299]


def warnings(codes=None):
    def gen(g):
        parts = []
        for _ in range(g.weighted([(75, 1), (25, 2)])):
            code = g.choice(codes or WARN_CODES) if g.bool(85) else g.choice([0, 99, 100, 150, 200, 213, 215, 298, 300, 999])
            raw = b'%03d ' % code + g.choice([b'-', b'a.com', b'[::1]:80', b'a:80']) + b' ' + quoted(g.choice(['x', '', 'a b']))
            t = None
            if g.bool(10):
                d, t = date(g)
                raw += b' "' + d + b'"'
            parts.append((raw, (code, t)))
        return joined(g, [p[0] for p in parts]), [p[1] for p in parts]
    return gen


# Negotiation
def _q(g, percent=40):
    if not g.bool(percent):
        return b'', None
    s = g.choice(['1', '0', '0.5', '1.0', '1.000', '0.500', '0.1', '0.', '1.', '0.001'])
    return g.choice([b';', b'; ', b' ;']) + b'q=' + s.encode(), float(s)


def accept(g):
    parts = []
    for _ in range(g.int(1, 4)):
        r = g.choice(['*/*', 'text/*', 'image/*', 'text/html', 'text/plain', 'image/png', 'application/json', 'text/x*', 'text/xy', 'textual/html'])
        raw = cased(g, r).encode()
        params = ''
        if g.bool(12):
            params = g.choice(['level=1', 'a=b', 'charset="utf-8"'])
            raw += b';' + params.encode()
        q, v = _q(g)
        raw += q
        if q and g.bool(10):
            raw += b';ext'
        parts.append((raw, (r, bool(params), v)))
    return joined(g, [p[0] for p in parts]), [p[1] for p in parts]


def weighted_tokens(pool):
    def gen(g):
        parts = []
        for _ in range(g.int(1, 4)):
            t = g.choice(pool)
            q, v = _q(g)
            parts.append((cased(g, t).encode() + q, (t, False, v)))
        return joined(g, [p[0] for p in parts]), [p[1] for p in parts]
    return gen


ENCODINGS = ['gzip', 'deflate', 'br', '*', 'identity', 'x-gzip', 'x-compress', 'compress', 'g*']


def te(g):
    """Meaning: names only."""
    parts = []
    for _ in range(g.weighted([(70, 1), (20, 2), (10, 3)])):
        t = g.choice(['trailers', 'trailers', 'chunked', 'gzip', 'deflate', 'foo'])
        raw = cased(g, t).encode()
        if t != 'trailers':
            raw += _q(g, 30)[0]
        parts.append((raw, t))
    return joined(g, [p[0] for p in parts]), [p[1] for p in parts]


def transfer_encoding(g):
    items = ['chunked'] if g.bool(60) else [g.choice(['chunked', 'gzip', 'identity', 'foo', 'gzip', 'x-chunked']) for _ in range(g.int(1, 2))]
    if g.bool(15):
        items = ['gzip', 'chunked']
    return joined(g, [cased(g, i).encode() for i in items]), items


UPGRADES = [('h2c', None), ('h2c', None), ('h2', None), ('websocket', None), ('HTTP', '2.0'), ('TLS', '1.0'), ('foo', '1'), ('foo', '2'), ('H2C', None),
            ('foo', None), ('h2c', '1'), ('WebSocket', None)]


def upgrade(g):
    items = [g.choice(UPGRADES) for _ in range(g.weighted([(70, 1), (25, 2), (5, 3)]))]
    return joined(g, [(n + ('/' + v if v else '')).encode() for n, v in items]), items


LIBRARIES = TABLES['libraries']


def user_agent(g):
    """Meaning: product names."""
    raw, products = b'', []
    for i in range(g.int(1, 3)):
        k = g.int(0, 9)
        if i and k < 3:
            raw += b' ' + g.choice([b'(a b)', b'(Linux; (x) y)', b'()'])
            continue
        n = g.choice(LIBRARIES) if g.bool(65) else g.choice(['Foo', 'Mozilla', 'curl', 'x' + LIBRARIES[0], LIBRARIES[3] + '2'])
        if g.bool(6):
            n = n.swapcase()
        raw += (b' ' if i else b'') + n.encode() + (b'/' + g.choice([b'1.0', b'x']) if g.bool(50) else b'')
        products.append(n)
    return raw, products


PARAM_NAMES = ['charset', 'boundary', 'a', 'q', 'version', 'title']
MEDIA = ['application/json', 'text/html', 'text/plain', 'application/xml', 'multipart/byteranges', 'multipart/mixed', 'application/x-www-form-urlencoded',
         'application/octet-stream', 'application/json-patch+json', 'application/merge-patch+json', 'image/png', 'application/x-unknown',
         'foo/bar', 'application/problem+json', 'application/jsonx']
DEPRECATED = sorted(k for k, v in TABLES['media_types'].items() if v.get('deprecated'))
PATCHES = sorted(k for k, v in TABLES['media_types'].items() if v.get('patch') is True)
NOT_PATCHES = sorted(k for k, v in TABLES['media_types'].items() if v.get('patch') is False)
WRONG_TYPES = ['application/text', 'plain/text', 'text/json']


def media_name(g):
    k = g.int(0, 9)
    return g.choice(MEDIA if k < 6 else DEPRECATED if k == 6 else PATCHES if k == 7 else NOT_PATCHES if k == 8 else WRONG_TYPES)


def params(g, names, values=('a', 'utf-8', 'a b', ''), lo=0, hi=2, quote=25):
    raw, out = b'', []
    for _ in range(g.int(lo, hi)):
        n, v = g.choice(names), g.choice(values)
        rv, q = arg(g, v, quote)
        raw += g.choice([b';', b'; ', b' ; ']) + cased(g, n).encode() + b'=' + rv
        out.append((n, v, q))
    return raw, out


def content_type(names=None):
    def gen(g):
        t = g.choice(names) if names else media_name(g)
        raw, ps = params(g, PARAM_NAMES[:4], hi=2) if g.bool(45) else (b'', [])
        return cased(g, t).encode() + raw, (t, ps)
    return gen


def media_list(g):
    types = [media_name(g) for _ in range(g.int(1, 3))]
    parts = []
    for t in types:
        raw, _ = params(g, ['a', 'b'], hi=1) if g.bool(20) else (b'', [])
        parts.append(cased(g, t).encode() + raw)
    return joined(g, parts), types


# URIs
HOSTS = ['a.com', 'b.com', 'A.com', 'a.com:80', '[::1]', '[::1]:8080', 'a.com:']


def host(g):
    h = g.choice(['a.com'] * 6 + HOSTS)
    return h.encode(), h


LOCATIONS = ['/', '/x', '/x?y=1', 'http://a.com/', 'http://a.com/x', 'https://a.com/', 'https://a.com/x', '//a.com/x', '//b.com/', 'x', '?y=1', '?', './x', '../x',
             '/#f', 'http://a.com/#f', 'x#f', '#f', '/x/../', './', '.', '..', '/x/./y', 'y', 'x?y=1', 'http://b.com/x', 'http://a.com', 'http://a.com:80/',
             '/x/y/../', 'mailto:a', '/X', '/%78', '/x?y=1#', 'http://a.com/x?y=1', 'http://a.com:443/x']


# Authentication
def token68(g):
    return g.choice(['YTpi', 'YQ==', 'YTo=', 'Og==', 'abc', 'a-b_c', 'YTpi=', 'AAAA', 'YQo6', 'fzo=', 'w6k6YQ==', 'YTpiYTpi', 'Y', 'YTp', 'A+/A',
                     'YTp-aWI=', 'YTpi.', '~YTpi', 'YT-pi'])


def auth_params(g, pool, lo=1, hi=3):
    parts, out = [], []
    for _ in range(g.int(lo, hi)):
        n, v = g.choice(pool)
        if n == 'realm' and g.bool(85):
            raw, q = quoted(v, g), True
        else:
            raw, q = arg(g, v, 50)
        parts.append(cased(g, n).encode() + b'=' + raw)
        out.append((n, v, q))
    return joined(g, parts) if g.bool(20) else b', '.join(parts), out


def credentials(g):
    """Meaning: (scheme, kind, data)."""
    scheme = g.choice(['Basic', 'Basic', 'Bearer', 'Bearer', 'Digest', 'Foo', 'YTpi'])
    shown = cased(g, scheme).encode()
    k = g.int(0, 9)
    if k < 1:
        return shown, (scheme, 'none', None)
    if k < 8:
        t = token68(g)
        return shown + b' ' + t.encode(), (scheme, 'token68', t)
    raw, ps = auth_params(g, [('a', 'b'), ('realm', 'x'), ('username', 'a b')])
    return shown + b' ' + raw, (scheme, 'params', ps)


CHALLENGE = {
    'Basic': [('realm', 'x'), ('realm', 'x'), ('realm', ''), ('charset', 'UTF-8'), ('charset', 'utf-8'), ('charset', 'utf8'), ('charset', 'x'), ('foo', 'bar'),
              ('title', 'a b'), ('realm2', 'x')],
    'Bearer': [('realm', 'x'), ('realm', 'y'), ('scope', 'a'), ('scope', 'a b'), ('scope', 'a  b'), ('scope', ''), ('scope', ' a'), ('scope', 'a\\b'),
               ('error', 'invalid_token'), ('error', 'invalid_request'), ('error', 'insufficient_scope'), ('error', 'foo bar'), ('error', ''),
               ('error', 'a"b'), ('error', 'Invalid_Token'), ('error', 'invalid_token '), ('error_description', 'a b'), ('error_description', '\xe9'),
               ('error_description', ''), ('error_uri', 'http://a.com/x'), ('error_uri', '/x'), ('error_uri', 'a b'), ('error_uri', '%zz'), ('foo', 'bar'),
               ('foo', 'baz'), ('error_description', 'x\ty')],
    'Digest': [('realm', 'x'), ('nonce', 'y'), ('qop', 'auth, auth-int')],
    'Foo': [('realm', 'x'), ('a', 'b')],
}


def challenges(schemes=('Basic', 'Basic', 'Bearer', 'Bearer', 'Digest', 'Foo')):
    def gen(g):
        parts, out = [], []
        for _ in range(g.weighted([(75, 1), (25, 2)])):
            scheme = g.choice(schemes)
            shown = cased(g, scheme).encode()
            k = g.int(0, 19)
            if k < 2:
                parts.append(shown)
                out.append((scheme, 'none', []))
            elif k < 4:
                t = g.choice(['abc', 'YTpi=', 'a-b='])
                parts.append(shown + b' ' + t.encode())
                out.append((scheme, 'token68', t))
            else:
                raw, ps = auth_params(g, CHALLENGE[scheme], 1, 4)
                parts.append(shown + b' ' + raw)
                out.append((scheme, 'params', ps))
        return b', '.join(parts), out
    return gen


# Preferences
PREFS = [('respond-async', None), ('return', 'minimal'), ('return', 'representation'), ('wait', '5'), ('wait', '10'), ('handling', 'strict'),
         ('handling', 'lenient'), ('foo', None), ('foo', 'bar'), ('foo', ''), ('depth-noroot', None)]
ODD_PREFS = [('respond-async', 'x'), ('return', None), ('return', 'foo'), ('return', 'x'), ('return', ''), ('wait', None), ('wait', 'x'), ('wait', '1.5'), ('handling', None),
             ('handling', 'x'), ('respond-async', ''), ('return', 'Minimal'), ('handling', 'STRICT'), ('depth-noroot', 'x'), ('foo', 'a b')]


def pref(g, odd=12):
    n, v = g.choice(ODD_PREFS if g.bool(odd) else PREFS)
    raw = cased(g, n).encode()
    if v is not None:
        a, _ = arg(g, v)
        raw += b'=' + a
    return raw, (n, v)


def prefer(odd=12):
    def gen(g):
        parts = []
        for _ in range(g.int(1, 3)):
            raw, v = pref(g, odd)
            if g.bool(20):
                raw += g.choice([b'; a=b', b';x', b'; a="b c"', b';', b' ; wait=x', b';return=x'])
            parts.append((raw, v))
        return joined(g, [p[0] for p in parts]), [p[1] for p in parts]
    return gen


def preference_applied(odd=12):
    def gen(g):
        parts = [pref(g, odd) for _ in range(g.int(1, 2))]
        return joined(g, [p[0] for p in parts]), [p[1] for p in parts]
    return gen


LINKS = [(b'<a>; rel=next', True, False), (b'<http://a.com/>; rel="blocked-by"', True, True), (b'</>; rel=blocked-by', True, True),
         (b'</>; Rel="next BLOCKED-BY"', True, None), (b'</>; Rel="next blocked-by"', True, True), (b'<>; rel="blocked-by2 x"', True, False), (b'<a>; rel="http://b.com/blocked-by"', True, False),
         (b'<a>; title="blocked-by"; rel=prev', True, False), (b'<a>; rel="prev blocked-by next"', True, True), (b'<a>;rel=alternate;hreflang=en', True, False),
         (b'<a>; rel=next; rel="blocked-by"', True, False), (b'<a>; rel="blocked-by"; rel=next', True, True), (b'<a>', False, False)]


def link(g):
    parts = [g.choice(LINKS) for _ in range(g.int(1, 2))]
    return joined(g, [p[0] for p in parts]), [p[2] for p in parts]


ANY_METHODS = ['GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'PATCH', 'OPTIONS', 'FOO', 'get', 'CONNECT', 'TRACE', 'PROPFIND']


def methods(g):
    if g.bool(5):
        return b'', []
    items = [g.choice(ANY_METHODS) for _ in range(g.int(1, 4))]
    return joined(g, [i.encode() for i in items]), items


ALT_SVC = fixed((b'h2=":443"', [1]), (b'clear', 'clear'), (b'h2="a.com:443"; ma=60', [1]), (b'h2=":1", h3=":2"', [1, 1]))
HSTS = fixed((b'max-age=1', [1]), (b'max-age=60; includeSubDomains', [1]), (b'foo; max-age=0', [1]))
NAMES = ['Accept', 'Host', 'Prefer', 'Foo', 'Age', 'ETag', 'X-Foo', 'Accept-Language', 'Cookie', 'Authorization', 'Expires', 'Date', 'Content-MD5']
CONNECTION = ['close', 'keep-alive', 'upgrade', 'TE', 'HTTP2-Settings', 'foo', 'Cache-Control', 'Date', 'ETag', 'Vary', 'Keep-Alive', 'Via', 'Content-Length', 'Authorization',
              'Trailer', 'X-Foo']

GENS = {
    'Accept': accept, 'Accept-Charset': weighted_tokens(['utf-8', '*', 'iso-8859-1', 'utf*', 'iso*']), 'Accept-Encoding': weighted_tokens(ENCODINGS),
    'Accept-Language': weighted_tokens(['en', '*', 'en-US', 'de', 'x-klingon']), 'Accept-Patch': media_list, 'Accept-Post': media_list, 'Accept-Ranges': starred(['bytes', 'foo'], 'none'),
    'Age': number(0, 1, 60, 61, 600, 86400, 86401, 864000), 'Allow': methods, 'Alt-Svc': ALT_SVC, 'Alt-Used': strings('a.com', 'a.com:80'),
    'Authorization': credentials, 'Proxy-Authorization': credentials, 'WWW-Authenticate': challenges(),
    'Proxy-Authenticate': challenges(('Basic', 'Basic', 'Digest', 'Bearer')),
    'Cache-Control': cache_control(), 'Connection': tokens(CONNECTION), 'Content-Disposition': fixed((b'inline', ('inline', [])), (b'attachment; filename=a', ('attachment', []))),
    'Content-Encoding': tokens(['identity', 'foo', 'aes128gcm'], 1, 2), 'Content-Language': tokens(['en', 'de-CH'], 1, 2), 'Content-Length': number(0, 1, 5, 10, 123456),
    'Content-Location': strings(*[x for x in LOCATIONS if '#' not in x]), 'Content-Range': content_range, 'Content-Type': content_type(),
    'Date': date, 'ETag': etag_, 'Expect': lambda g: (cased(g, '100-continue').encode(), '100-continue'), 'Expires': date, 'Forwarded': fixed((b'for=1.2.3.4', [1]), (b'for=_a;by=_b', [1])),
    'Host': host, 'HTTP2-Settings': strings('AAMAAABkAARAAAAAAAIAAAAA', 'AAAA', 'a-_', 'AA==', 'A+A', 'A/A', 'A.A', 'A~'), 'If-Match': etags, 'If-Modified-Since': date, 'If-None-Match': etags,
    'If-Range': if_range, 'If-Unmodified-Since': date, 'Last-Modified': date, 'Link': link, 'Location': strings(*LOCATIONS), 'Max-Forwards': number(0, 1, 10),
    'Pragma': pragma, 'Prefer': prefer(), 'Preference-Applied': preference_applied(), 'Range': range_, 'Retry-After': lambda g: date(g) if g.bool(40) else number(0, 60)(g),
    'Referer': strings('http://a.com/', 'https://a.com/', 'HTTPS://a.com/x', '/x', 'about:blank', '//a.com/', 'https:', 'httpsx://a/', 'http://https/'),
    'Strict-Transport-Security': HSTS, 'TE': te, 'Trailer': tokens(NAMES), 'Transfer-Encoding': transfer_encoding, 'Upgrade': upgrade, 'User-Agent': user_agent,
    'Vary': starred(NAMES), 'Via': fixed((b'1.1 a', [1]), (b'1.0 b, 1.1 c (d)', [1, 1]), (b'HTTP/2 [::1]:80', [1])), 'Warning': warnings(),
}
BADS = {
    'Accept': [b'text', b'a/b;q=2', b'a/b c'], 'Accept-Encoding': [b'gzip;q=1.5', b'a b'], 'Accept-Charset': [b'', b'a b'], 'Accept-Language': [b'e_n', b''], 'Accept-Patch': [b'text', b''],
    'Accept-Post': [b'text'], 'Age': [b'', b'-1', b'1.5', b'x'], 'Allow': [b'a b', b'"GET"'], 'Alt-Svc': [b'h2', b''], 'Authorization': [b'', b'Basic a b', b'Basic a,b'],
    'Cache-Control': [b'', b'max age', b'a=b c', b'=1'], 'Connection': [b'', b'a b', b'a/b'], 'Content-Encoding': [b'', b'gzip;q=1'], 'Content-Language': [b'', b'e'],
    'Content-Length': [b'', b'-1', b'x', b'1, 1'], 'Content-Location': [b'a b', b'#x', b'[', b'%'], 'Content-Range': [b'', b'bytes', b'bytes 1-', b'bytes=1-2/3'],
    'Content-Type': [b'', b'text', b'text/html; a', b'text/html; a = b'], 'Date': [b'', b'0', b'Sun, 6 Nov 1994 08:49:37 GMT', b'Sun, 06 Nov 1994 08:49:37 UTC'],
    'ETag': [b'', b'a', b'w/"a"', b"'a'"], 'Expect': [b'', b'foo', b'100-continue2'], 'Host': [b'a b', b'a, b', b'a:b', b'[', b'a/b'], 'HTTP2-Settings': [b'', b'a b', b'=a'],
    'If-Match': [b'', b'a', b'"a" "b"'], 'If-None-Match': [b'', b'a'], 'If-Range': [b'', b'a', b'*'], 'Location': [b'a b', b'[', b'<x>'], 'Max-Forwards': [b'', b'-1', b'x'],
    'Pragma': [b'', b'a b', b'no-cache=x'], 'Prefer': [b'', b'a b', b'a=b=c'], 'Preference-Applied': [b'', b'a; b=c'], 'Range': [b'', b'bytes', b'bytes=', b'bytes=a-b', b'1-2'], 'Referer': [b'a b', b'/#x', b'<x>'],
    'Retry-After': [b'', b'x', b'-1'], 'Strict-Transport-Security': [b'a b', b'=1', b'a, b'], 'TE': [b'a b', b'trailers;q=1'], 'Trailer': [b'', b'a b'], 'Transfer-Encoding': [b'', b'a b', b'chunked;q'],
    'Upgrade': [b'', b'a b', b'a/b/c'], 'User-Agent': [b'', b'(a)', b'a ('], 'Vary': [b'', b'a b', b'"*"'], 'Via': [b'', b'1.1', b'a'], 'Warning': [b'', b'1 - "a"', b'110 -', b'110 a "x'],
    'WWW-Authenticate': [b'', b'"x"', b'Basic a b'], 'Link': [b'a', b'<a> rel=x', b'<a b>'], 'Accept-Ranges': [b'', b'a b'], 'Proxy-Authenticate': [b'', b'"x"'], 'Proxy-Authorization': [b'', b'Basic a b'],
    'Forwarded': [b'a', b'a b'], 'Alt-Used': [b'a b'], 'Content-Disposition': [b'', b';', b'a; b'],
}
for _name in ('Expires', 'Last-Modified', 'If-Modified-Since', 'If-Unmodified-Since'):
    BADS[_name] = BADS['Date']


def field(g, name, bad=5, gen=None):
    """One line: (name, raw, meaning)."""
    shown = cased(g, name)
    if name in BADS and g.bool(bad):
        return (shown, g.choice(BADS[name]), BAD)
    gen = gen or GENS.get(name)
    if gen is None:
        return (shown, g.choice([b'x', b'1', b'', b'a, b']), None)
    raw, v = gen(g)
    return (shown, raw, v)


ALL_NAMES = sorted(HEADERS)
UNKNOWN = ['Foo', 'X-Foo', 'X-', 'Bar-Baz', 'Xy', 'X_Foo', 'x-bar']
# Fields that would make HTTPolice read the payload, silence things etc. are left to other properties.
NOISE = [n for n in ALL_NAMES if n not in ('Content-Encoding', 'HTTPolice-Silence')]


# Syntaxes of the rest are known to HTTPolice, so that any noise there must be well-formed or marked.
def noise(g):
    k = g.int(0, 9)
    if k < 5:
        n = g.choice(NOISE)
    elif k < 8:
        n = g.choice(sorted(GENS))
    else:
        n = g.choice(UNKNOWN)
    return field(g, n, 5)


def message(g, wanted, noisy=30, bad=5, repeat=6):
    """wanted: [(percent, name)] or [(percent, name, generator)]."""
    lines = []
    if bad == 5 and g.bool(15):
        bad = 30
    for w in wanted:
        if g.bool(w[0]):
            gen = w[2] if len(w) > 2 else None
            lines.append(field(g, w[1], bad, gen))
            if g.bool(repeat):
                lines.append(field(g, w[1], bad, gen))
    if g.bool(noisy):
        lines += g.list(lambda: noise(g), 1, 3)
    return g.shuffle(lines) if g.bool(20) else lines


def trailers(g, wanted, percent=6):
    if not g.bool(percent):
        return None
    return g.list(lambda: noise(g) if g.bool(50) or not wanted else field(g, g.choice(wanted)[1]), 0, 2)


def target(g, method):
    """(target, form)"""
    k = g.int(0, 19)
    origin = lambda: (g.choice(['/', '/x', '/x?y=1', '/x/y', '//x', '/?', '/?a']), 'origin')
    absolute = lambda: (g.choice(['http://a.com/', 'http://a.com/x', 'https://a.com/x', 'http://a.com', 'http://a.com/x?y=1', 'HTTP://a.com/x']), 'absolute')
    authority = lambda: (g.choice(['a.com:80', 'a.com:443', '[::1]:80', 'a.com']), 'authority')
    if method == 'CONNECT':
        if k < 16:
            return authority()
        t, f = g.choice([('/', None), ('*', 'authority'), ('http://a.com/', None), ('a.com:80/', None), ('/x?y', None)])
        return t, f
    if method == 'OPTIONS':
        return ('*', 'asterisk') if k < 8 else origin() if k < 14 else absolute() if k < 19 else (g.choice(['a b', '', '%']), None)
    if k < 14:
        return origin()
    if k < 18:
        return absolute()
    return g.choice([('*', None), ('a b', None), ('', None), ('x', None), ('/a b', None), ('/[', None), ('/#f', None), ('//', 'origin'), ('a.com', None), ('é', None)])


COMMON_METHODS = ['GET', 'GET', 'GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'OPTIONS', 'CONNECT', 'TRACE', 'PATCH']


def method_name(g, pool=None):
    k = g.int(0, 19)
    if k < 15:
        return g.choice(pool or COMMON_METHODS)
    if k < 17:
        return g.choice(sorted(METHODS))
    if k < 18:
        return g.choice(['get', 'Post', 'foo', 'propfind', 'Get', 'pATCH'])
    return g.choice(['FOO', 'X', 'GETT', 'NOTIFY'])


BODIES = [b'x', b'hello', b'a=b', b'1', b'{}']


def body(g, empty=50, odd=8):
    if g.bool(odd):
        return g.choice([None, UNAVAILABLE])
    return b'' if g.bool(empty) else g.choice(BODIES)


VERSIONS = [(58, 'HTTP/1.1'), (16, 'HTTP/1.0'), (20, 'HTTP/2'), (5, None), (1, 'HTTP/3')]


def request(g, wanted, pool=None, empty=50, noisy=30, **kw):
    m = method_name(g, pool)
    t, form = target(g, m)
    version = g.weighted(VERSIONS)
    lines = message(g, wanted, noisy, **kw)
    have = [n.lower() for n, _, _ in lines]
    if 'host' not in have and g.bool(88 if version != 'HTTP/2' else 40):
        lines.insert(0 if g.bool(90) else len(lines), field(g, 'Host', 4))
        if g.bool(2):
            lines.append(field(g, 'Host', 4))
    if 'user-agent' not in have and g.bool(60):
        lines.append(field(g, 'User-Agent', 4))
    b = body(g, empty)
    if 'content-length' not in have and 'transfer-encoding' not in have and b != b'' and g.bool(60):
        lines.append(field(g, 'Content-Length', 1))
    return {'scheme': g.weighted([(45, 'http'), (45, 'https'), (10, None)]), 'method': m, 'target': t, 'form': form, 'version': version,
            'headers': lines, 'body': b, 'trailers': trailers(g, wanted)}


ALL_STATUSES = sorted(int(s) for s in STATUSES)


def status_code(g, pool=None):
    k = g.int(0, 19)
    if k < 14:
        return g.choice(pool or ALL_STATUSES)
    if k < 18:
        return g.choice(ALL_STATUSES)
    return g.choice([199, 299, 306, 399, 450, 499, 520, 599, 600, 99, 999])


def response(g, wanted, pool=None, empty=50, noisy=30, **kw):
    s = status_code(g, pool)
    lines = message(g, wanted, noisy, **kw)
    have = [n.lower() for n, _, _ in lines]
    if 'date' not in have and g.bool(70):
        lines.append(field(g, 'Date', 4))
    b = body(g, empty)
    if 'content-type' not in have and b != b'' and g.bool(60):
        lines.append(field(g, 'Content-Type', 2))
    if 'content-length' not in have and 'transfer-encoding' not in have and g.bool(50):
        lines.append(field(g, 'Content-Length', 2))
    return {'version': g.weighted(VERSIONS), 'status': s, 'reason': g.choice(['OK', 'x', None, '']), 'headers': lines, 'body': b, 'trailers': trailers(g, wanted)}
