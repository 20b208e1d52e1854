"""C07: verdicts depend on what header fields mean, not on how they are spelled."""
import collections

import httpolice
from lib import abnf, grammar as gr, seeds, wild
from lib.core import Part, require, same, sut
from lib.strings import mutate

PID = 'C07'
TECHNIQUE = 'metamorphic: generated exchanges against the same exchanges spelled differently, or with repeated and trailing fields'
NOTE = ('Random sampling. List-valued fields are split, joined and spaced only where an independent grammar accepts both spellings; '
        'there, sets of notice numbers are compared (a notice is reported once per field line).')
RULE = ('exchanges from the corpus under mutation with 1-3 changes of spelling; fields that may occur only once repeated 1-2 times; fields moved to '
        'the trailer; non-trivial when the exchange has notices and the change is not void')

LISTS = ['Accept', 'Accept-Charset', 'Accept-Encoding', 'Accept-Language', 'Accept-Patch', 'Accept-Post', 'Accept-Ranges',
         'Access-Control-Allow-Headers', 'Access-Control-Allow-Methods', 'Access-Control-Expose-Headers', 'Access-Control-Request-Headers',
         'Allow', 'Alt-Svc', 'Cache-Control', 'Connection', 'Content-Encoding', 'Content-Language', 'Forwarded', 'If-Match',
         'If-None-Match', 'Link', 'Pragma', 'Prefer', 'Preference-Applied', 'TE', 'Trailer', 'Transfer-Encoding', 'Upgrade', 'Vary',
         'Via', 'Warning', 'Proxy-Authenticate', 'WWW-Authenticate']
CANON = {n.lower(): n for n in LISTS}
# Values that stand for the whole list.
SINGULAR = {b'*', b'none', b'clear'}
# Lists whose elements may themselves contain commas outside of quotes.
UNSPLITTABLE = {'Proxy-Authenticate', 'WWW-Authenticate'}

# Clean values of fields that may occur only once.
D1, D2 = b'Thu, 31 Dec 2015 18:26:56 GMT', b'Sun, 06 Nov 1994 08:49:37 GMT'
SINGLE = {
    'Access-Control-Allow-Credentials': [b'true'], 'Access-Control-Allow-Origin': [b'*', b'http://a.com'], 'Access-Control-Max-Age': [b'5', b'60'],
    'Access-Control-Request-Method': [b'GET', b'PUT'], 'Age': [b'0', b'70'], 'Alt-Used': [b'a.com', b'b.com:80'],
    'Authorization': [b'Basic YTpi', b'Foo bar'], 'Content-Disposition': [b'attachment', b'inline; filename=a'],
    'Content-Length': [b'0', b'5'], 'Content-Location': [b'/', b'/foo'], 'Content-Range': [b'bytes 0-4/5', b'bytes */5'],
    'Content-Type': [b'text/plain', b'application/json', b'application/xml', b'image/png'], 'Cross-Origin-Resource-Policy': [b'same-origin'],
    'Date': [D1, D2], 'ETag': [b'"a"', b'W/"b"'], 'Expect': [b'100-continue'], 'Expires': [D1, D2], 'From': [b'a@b.com'],
    'HTTP2-Settings': [b'AAMAAABkAARAAAAAAAIAAAAA'], 'Host': [b'example.com', b'a.com:80'], 'If-Modified-Since': [D1, D2],
    'If-Range': [b'"a"', D1], 'If-Unmodified-Since': [D1, D2], 'Last-Modified': [D1, D2], 'Location': [b'/', b'http://example.com/foo'],
    'Max-Forwards': [b'0', b'5'], 'Origin': [b'http://a.com', b'null'], 'Proxy-Authorization': [b'Basic YTpi', b'Foo bar'],
    'Range': [b'bytes=0-4', b'bytes=1-2'], 'Referer': [b'http://example.com/', b'/foo'], 'Retry-After': [b'60', D1], 'Server': [b'a/1', b'b'],
    'User-Agent': [b'a/1', b'b'], 'X-Content-Type-Options': [b'nosniff'],
}

# RFC 7230 section 4.1.2: framing, routing, request modifiers, authentication, response control data, processing of the payload.
FORBIDDEN = ['Transfer-Encoding', 'Content-Length', 'Host', 'Cache-Control', 'Expect', 'Max-Forwards', 'Pragma', 'Range', 'TE',
             'If-Match', 'If-None-Match', 'If-Modified-Since', 'If-Unmodified-Since', 'If-Range', 'Authorization', 'Proxy-Authorization',
             'Age', 'Expires', 'Date', 'Location', 'Retry-After', 'Vary', 'Warning', 'Content-Encoding', 'Content-Type', 'Content-Range', 'Trailer']
ALLOWED = ['ETag', 'Link', 'Server', 'Foo', 'X-Foo', 'Last-Modified', 'Alt-Svc', 'Allow', 'Accept-Ranges', 'Content-Language', 'Via',
           'Upgrade', 'Content-Location', 'Preference-Applied', 'Strict-Transport-Security', 'Accept', 'Accept-Encoding', 'Prefer', 'Referer',
           'Accept-Language', 'Forwarded', 'Content-Disposition', 'From', 'Accept-Patch', 'Content-MD5', 'Proxy-Connection', 'Digest']
REQUEST_ONLY = {'Host', 'Expect', 'Max-Forwards', 'Range', 'TE', 'If-Match', 'If-None-Match', 'If-Modified-Since', 'If-Unmodified-Since', 'If-Range',
                'Authorization', 'Proxy-Authorization'}
RESPONSE_ONLY = {'Age', 'Expires', 'Location', 'Retry-After', 'Vary'}


def raw(v):
    return v if isinstance(v, bytes) else v.encode('latin-1', 'replace')


def latin(v):
    try:
        return v if isinstance(v, bytes) else v.encode('latin-1')
    except UnicodeError:
        return None


def valid(name, value):
    return abnf.automaton(gr.HEADERS[name]).accepts(value)


def commas(name, v):
    """Positions of commas between elements."""
    r = []
    i, quoted, depth, angle = 0, False, 0, False
    escapes = name not in ('If-Match', 'If-None-Match')
    while i < len(v):
        c = v[i:i + 1]
        if quoted:
            if c == b'\\' and escapes:
                i += 1
            elif c == b'"':
                quoted = False
        elif angle:
            angle = c != b'>'
        elif depth:
            if c == b'\\':
                i += 1
            depth += (c == b'(') - (c == b')')
        elif c == b'"':
            quoted = True
        elif c == b'(' and name == 'Via':
            depth = 1
        elif c == b'<' and name == 'Link':
            angle = True
        elif c == b',':
            r.append(i)
        i += 1
    return r


def elements(name, v):
    at = [-1] + commas(name, v) + [len(v)]
    return [v[a + 1:b].strip(b' \t') for a, b in zip(at, at[1:])]


# ------------------------------------------------------------------ changes of spelling

def _case(g, msg, part, i):
    n, v = msg[part][i]
    if not n.isascii():
        return None
    how = g.int(0, 4)
    new = [n.lower, n.upper, n.swapcase, n.title, lambda: ''.join(c.upper() if g.bool() else c.lower() for c in n)][how]()
    msg[part][i] = (new, v)
    return new != n and 'case'


def _text(g, msg, part, i):
    n, v = msg[part][i]
    v2 = v.decode('latin-1') if isinstance(v, bytes) else latin(v)
    if v2 is None:
        return None
    msg[part][i] = (n, v2)
    return 'text'


def _split(g, msg, part, i):
    n, v = msg[part][i]
    name = CANON.get(n.lower())
    v = latin(v)
    if name is None or name in UNSPLITTABLE or v is None or not valid(name, v):
        return None
    parts = elements(name, v)
    if len(parts) < 2 or not all(parts):
        return None
    at = sorted({g.int(1, len(parts) - 1) for _ in range(g.int(1, 2))})
    values = [b', '.join(parts[a:b]) for a, b in zip([0] + at, at + [len(parts)])]
    if not all(valid(name, x) for x in values) or SINGULAR & {x.lower() for x in parts}:
        return None
    msg[part][i:i + 1] = [(n, x) for x in values]
    return 'split'


def _join(g, msg, part, i):
    n, v = msg[part][i]
    name = CANON.get(n.lower())
    if name is None:
        return None
    v = latin(v)
    for j in range(i + 1, len(msg[part])):
        n2, v2 = msg[part][j]
        if n2.lower() == n.lower():
            break
    else:
        return None
    v2 = latin(v2)
    if v is None or v2 is None or not v or not v2 or SINGULAR & {x.lower() for x in elements(name, v) + elements(name, v2)}:
        return None
    if not all(elements(name, v)) or not all(elements(name, v2)):
        return None
    both = v + g.choice([b', ', b',']) + v2
    if not valid(name, v) or not valid(name, v2) or not valid(name, both):
        return None
    del msg[part][j]
    msg[part][i] = (n, both)
    return 'join'


def _space(g, msg, part, i):
    n, v = msg[part][i]
    name = CANON.get(n.lower())
    v = latin(v)
    if name is None or v is None or not valid(name, v):
        return None
    at = commas(name, v)
    parts = [v[a + 1:b].strip(b' \t') for a, b in zip([-1] + at, at + [len(v)])]
    if not at or not all(parts):
        return None
    new = parts[0]
    for p in parts[1:]:
        new += g.choice([b',', b' ,', b'\t,', b', ', b' , ', b',\t', b',  ']) + p
    if not valid(name, new):
        return None
    msg[part][i] = (n, new)
    return new != v and 'space'


def _move(g, msg, part, i):
    entries = msg[part]
    others = [e for e in entries if e[0].lower() != 'host']
    names = [e[0].lower() for e in others]
    perm = g.shuffle(list(range(len(others))))
    # The order of fields of the same name stays.
    queues = collections.defaultdict(list)
    for n, e in zip(names, others):
        queues[n].append(e)
    new = [queues[names[k]].pop(0) for k in perm]
    it = iter(new)
    moved = [e if e[0].lower() == 'host' else next(it) for e in entries]
    changed = moved != entries
    entries[:] = moved
    return changed and 'move'


# Fields whose whole value does not depend on the case (outside of quotes).
CASELESS = {'connection', 'trailer', 'vary', 'access-control-allow-headers', 'access-control-expose-headers', 'access-control-request-headers',
            'transfer-encoding', 'content-encoding', 'te', 'cache-control', 'accept-encoding', 'content-type', 'expect', 'accept-charset',
            'accept-language', 'content-language', 'x-content-type-options'}


def _caseless(g, msg, part, i):
    n, v = msg[part][i]
    if n.lower() not in CASELESS or latin(v) is None or b'boundary' in latin(v).lower():
        return None
    how = g.int(0, 2)
    pieces = latin(v).split(b'"')
    pieces[::2] = [[x.upper, x.lower, x.swapcase][how]() for x in pieces[::2]]
    new = b'"'.join(pieces)
    msg[part][i] = (n, new)
    return new != latin(v) and 'value case'


CHANGES = [_case, _text, _split, _join, _space, _move, _caseless]
# (fields in which elements are worth having)
RICH = {n: [v for v in vs if latin(v) is not None and b',' in latin(v)] for n, vs in wild.PICKS.items() if n in LISTS}


def enrich(g, case):
    """Add list-valued fields, perhaps several of a name."""
    msg = g.choice(seeds.messages(case))
    name = g.choice(LISTS)
    for _ in range(g.int(1, 3)):
        v = abnf.sample(gr.HEADERS[name], g, [40])
        if g.bool(40):
            v += b', ' + abnf.sample(gr.HEADERS[name], g, [20])
        if RICH.get(name) and g.bool(30):
            v = g.choice(RICH[name])
        part = 'trailers' if msg['trailers'] and g.bool(20) else 'headers'
        msg[part].insert(g.int(0, len(msg[part])), (name, v))


BUNDLES = [
    [('TE', b'trailers'), ('Connection', b'TE')], [('TE', b'gzip;q=0.5'), ('Connection', b'close, te')],
    [('Upgrade', b'h2c'), ('HTTP2-Settings', b'AAMAAABk'), ('Connection', b'Upgrade, HTTP2-Settings')],
    [('Upgrade', b'foo/1, h2c'), ('Connection', b'upgrade')],
    [('Cache-Control', b'no-cache'), ('Pragma', b'no-cache')], [('Cache-Control', b'no-store, max-age=60, Public')],
    [('Vary', b'Accept, Cookie, Host')], [('Vary', b'Accept-Encoding, *')], [('Connection', b'Cache-Control, close')],
    [('Trailer', b'ETag, Foo, Content-Length')], [('Transfer-Encoding', b'gzip, chunked'), ('Content-Length', b'0')],
    [('Content-Encoding', b'gzip, br'), ('Content-Type', b'Application/JSON; Charset=utf-8')],
    [('Content-Type', b'text/html; charset=latin1; charset=UTF-8')], [('Accept-Encoding', b'x-gzip, gzip;q=0, *')],
    [('Cache-Control', b'private="Set-Cookie, Foo", no-cache=Age, immutable')], [('Access-Control-Allow-Headers', b'A, a, *')],
]


def clone(case):
    return {'request': case['request'] and seeds.copy(case['request']), 'responses': [seeds.copy(r) for r in case['responses']]}


def gen(g):
    case = seeds.exchange(g, 2)
    special = set()
    if seeds.messages(case):
        for _ in range(g.choice([0, 1, 1, 2])):
            if g.bool(40):
                bundle = g.choice(BUNDLES)
                msg = g.choice(seeds.messages(case))
                if bundle[0][0] in ('TE', 'Accept-Encoding') or bundle[-1][0] == 'Pragma':
                    msg = seeds.messages(case)[0]
                for e in bundle:
                    msg['headers'].insert(g.int(0, len(msg['headers'])), e)
                    special.add(e[0])
            else:
                enrich(g, case)
    other = clone(case)
    done = []
    for _ in range(g.int(1, 3)):
        spots = [(m, part, i) for m in seeds.messages(other) for part in ('headers', 'trailers') for i in range(len(m[part] or []))]
        if not spots:
            break
        if special and g.bool(60):
            spots = [(m, part, i) for m, part, i in spots if m[part][i][0] in special] or spots
        f = g.choice(CHANGES)
        for k in range(8):
            if k == 4:
                f = g.choice(CHANGES[:2] + CHANGES[-1:])
            what = f(g, *g.choice(spots))
            if what:
                done.append(what)
                break
    return {'before': case, 'after': other, 'changes': done}


def judged(case):
    exch = sut('constructing', wild.build, case)
    sut('check_exchange', httpolice.check_exchange, exch)
    req, resps, own = wild.ids(exch)
    same('notices on the exchange itself', [], own)
    return [req or []] + resps


def check(case):
    before, after = judged(case['before']), judged(case['after'])
    f = set if {'split', 'join', 'space'} & set(case['changes']) else collections.Counter
    if f is set:
        # (this one is about commas where semicolons are usual, hence about spelling)
        before, after = [[[n for n in x if n != 1297] for x in y] for y in (before, after)]
    same('notices with %s' % ', '.join(case['changes']), [sorted(f(x).items()) if f is not set else sorted(f(x)) for x in before],
         [sorted(f(x).items()) if f is not set else sorted(f(x)) for x in after])
    return bool(any(before) and case['changes']), case['changes'] or ['no change']


# ------------------------------------------------------------------ repeated fields

def gen_repeat(g):
    case = seeds.exchange(g, 1)
    if not seeds.messages(case):
        case['request'] = seeds.copy(g.choice([c for c in seeds.corpus() if c['request']])['request'])
    which = g.int(0, len(seeds.messages(case)) - 1)
    msg = seeds.messages(case)[which]
    present = [e for e in msg['headers'] if any(e[0].lower() == n.lower() for n in SINGLE)]
    if present and g.bool(65):
        name, last = g.choice(present)
    else:
        name = g.choice(sorted(SINGLE))
        last = g.choice(SINGLE[name])
        if name in gr.HEADERS and g.bool(30):
            last = abnf.sample(gr.HEADERS[name], g)
    if g.bool(10):
        last = mutate(g, raw(last))
    table = {n.lower(): v for n, v in SINGLE.items()}
    return {'exchange': case, 'which': which, 'name': name, 'last': last, 'at': g.int(0, 8),
            'earlier': [(g.choice([name, name, name.lower(), name.upper()]), g.choice(table[name.lower()]), g.int(0, 8)) for _ in range(g.int(1, 2))]}


def check_repeat(case):
    name = case['name'].lower()
    once, often = clone(case['exchange']), clone(case['exchange'])
    for c in (once, often):
        msg = seeds.messages(c)[case['which']]
        msg['headers'] = [e for e in msg['headers'] if e[0].lower() != name]
        if msg['trailers']:
            msg['trailers'] = [e for e in msg['trailers'] if e[0].lower() != name]
        at = min(case['at'], len(msg['headers']))
        if name == 'host':
            at = 0
        msg['headers'].insert(at, (case['name'], case['last']))
    msg = seeds.messages(often)[case['which']]
    first = 1 if name != 'host' and msg['headers'][0][0].lower() == 'host' else 0
    for n, v, at in case['earlier']:
        last = max(i for i, e in enumerate(msg['headers']) if e[0].lower() == name)
        msg['headers'].insert(min(max(at, first), last), (n, v))
    before, after = judged(once), judged(often)
    expected = [collections.Counter(x) for x in before]
    expected[case['which'] + (0 if case['exchange']['request'] else 1)][1013] += 1
    found = [collections.Counter(x) for x in after]
    if name == 'host' and case['exchange']['request'] and case['which'] == 0:
        # Such a request must be rejected.
        for c in expected[1:] + found[1:]:
            del c[1033]
    if name == 'http2-settings' and case['exchange']['request'] and case['which'] == 0:
        # RFC 7540 section 3.2.1: the server must not upgrade unless there is exactly one.
        for c in expected[1:] + found[1:]:
            del c[1232]
    same('notices when %s is repeated' % case['name'], expected, found)
    return True, [case['name'].title(), '%d times' % (1 + len(case['earlier']))]


# ------------------------------------------------------------------ trailers

def gen_trailer(g):
    case = seeds.exchange(g, 1)
    if not seeds.messages(case):
        case['request'] = seeds.copy(g.choice([c for c in seeds.corpus() if c['request']])['request'])
    which = g.int(0, len(seeds.messages(case)) - 1)
    is_req = case['request'] is not None and which == 0
    forbidden = g.bool()
    if forbidden:
        name = g.choice([n for n in FORBIDDEN if n not in (RESPONSE_ONLY if is_req else REQUEST_ONLY)])
    else:
        name = g.choice(ALLOWED)
    values = SINGLE.get(name, []) + [v for v in wild.PICKS.get(name, []) if latin(v) is not None]
    if name in gr.HEADERS and g.bool(40):
        v = abnf.sample(gr.HEADERS[name], g, [40])
    else:
        v = g.choice(values) if values else g.choice([b'x', b'', b'"', b'a, b'])
    if g.bool(15):
        v = mutate(g, raw(v))
    return {'exchange': case, 'which': which, 'name': g.choice([name, name, name.lower(), name.upper()]), 'value': v, 'forbidden': forbidden,
            'others': g.choice([[], [], [('X-Foo', b'bar')], [('Foo', b'bar'), ('Bar', b'')]]), 'at': g.int(0, 2),
            'announce': g.choice([None, 'it', 'it', 'all', 'upper']), 'times': g.choice([1, 1, 1, 2])}


def check_trailer(case):
    name = case['name'].lower()
    without, there, header = [clone(case['exchange']) for _ in range(3)]
    for c in (without, there, header):
        msg = seeds.messages(c)[case['which']]
        msg['trailers'] = [e for e in (msg['trailers'] or []) if e[0].lower() != name] + list(case['others'])
        if case['announce'] and name != 'trailer':
            names = [case['name']] + ([n for n, _ in msg['trailers']] if case['announce'] == 'all' else [])
            value = ', '.join(dict.fromkeys(n for n in names if abnf.automaton(gr.token).accepts(n.encode('utf-8'))))
            msg['headers'] = [e for e in msg['headers'] if e[0].lower() != 'trailer']
            msg['headers'].append(('Trailer', (value.upper() if case['announce'] == 'upper' else value).encode()))
    entry = (case['name'], case['value'])
    msg = seeds.messages(there)[case['which']]
    announced = False
    for n, v in msg['headers']:
        if n.lower() == 'trailer':
            v = latin(v)
            announced = announced or (v is not None and valid('Trailer', v) and name.encode() in [x.lower() for x in elements('Trailer', v)])
    at = min(case['at'], len(msg['trailers']))
    if not case['forbidden'] and any(e[0].lower() == name for e in msg['headers']):
        # The order of values matters.
        at = 0 if not any(e[0].lower() == name for e in msg['trailers']) else len(msg['trailers'])
    for _ in range(case['times']):
        msg['trailers'].insert(at, entry)
    i = case['which'] + (0 if case['exchange']['request'] else 1)
    after = [collections.Counter(x) for x in judged(there)]
    if case['forbidden']:
        expected = [collections.Counter(x) for x in judged(without)]
        expected[i][1026] += len(set([entry] * case['times']))
    else:
        m = seeds.messages(header)[case['which']]
        for _ in range(case['times']):
            m['headers'].append(entry)
        expected = [collections.Counter(x) for x in judged(header)]
    if not announced:
        expected[i][1030] += 1
    if case['forbidden']:
        # Notices that this field should not be in such a message at all.
        for c in expected + after:
            for n in (1052, 1053, 1063, 1064, 1127, 1130, 1131, 1146, 1200, 1244):
                del c[n]
    same('notices with %s in the trailer' % case['name'], [+x for x in expected], after)
    return True, ['forbidden' if case['forbidden'] else 'allowed', 'announced' if announced else 'unannounced']


PARTS = [
    Part('spelling', gen, check, 4500),
    Part('repeat', gen_repeat, check_repeat, 2500),
    Part('trailer', gen_trailer, check_trailer, 2500),
]
