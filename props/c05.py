"""C05: a syntax error is reported exactly when a value violates its grammar."""
import httpolice
from lib import abnf, grammar as gr
from lib.core import Part, require, sut
from lib.strings import mutate

PID = 'C05'
TECHNIQUE = 'grammar-based generation with near-miss mutation of values and of rules, differential against an independent ABNF automaton'
NOTE = ('Random sampling: every known header and argument grammar is sampled hundreds of times per run. '
        'Trusts the hand transcription of the RFC grammars in lib/grammar.py.')
RULE = ('a value sampled from an independent transcription of the grammar of a known header, method, '
        'target, reason, field name or directive argument, unchanged, with 1-2 byte edits, or at or just beyond the limits of a random inner rule; '
        'non-trivial when the value is non-empty')
ASSUMPTIONS = [
    'values containing comments nested deeper than %d are skipped' % gr.COMMENT_DEPTH,
    'header values are compared without leading and trailing whitespace (not part of a field value)',
    'names the specification itself gives a meaning in a production (chunked, q, filename ...) are not '
    'available to the generic extension alternative of that production',
]

HEADERS = sorted(gr.HEADERS)
ARGS = sorted(gr.ARGS)
HAS_COMMENT = {'User-Agent', 'Server', 'Via'}


def too_deep(v):
    depth = top = 0
    for c in v:
        if c == 0x28:
            depth += 1
            top = max(top, depth)
        elif c == 0x29:
            depth -= 1
    return top > gr.COMMENT_DEPTH or v.count(b'(') > gr.COMMENT_DEPTH + 2


_NODES = {}


def nodes_of(expr):
    r = _NODES.get(id(expr))
    if r is None:
        r = _NODES[id(expr)] = abnf.Nodes(expr), expr
    return r[0]


def through(g, expr):
    """A value at or just beyond the limits of some rule, however deep."""
    nodes = nodes_of(expr)
    return abnf.sample_through(nodes, g.choice(nodes.nodes), g, g.bool(65))


def value_of(g, expr):
    if g.bool(35):
        return through(g, expr)
    v = abnf.sample(expr, g)
    if g.bool(60):
        v = mutate(g, v)
    return v


def notices(exch):
    return [n.id for obj in [exch] + ([exch.request] if exch.request else []) +
            list(exch.responses) for n in obj.notices]


def request(method='GET', target='/', version='HTTP/1.1', headers=()):
    return httpolice.Request('http', method, target, version, list(headers), b'')


# ------------------------------------------------------------------ headers

def gen_header(g):
    name = g.choice(HEADERS)
    return {'name': name, 'value': value_of(g, gr.HEADERS[name]).strip(b' \t'),
            'in_request': g.bool()}


def gen_rule(g):
    if not _BY_SIZE:
        _BY_SIZE.extend(name for name in HEADERS for _ in range(1 + len(nodes_of(gr.HEADERS[name]).nodes) // 4))
    name = g.choice(_BY_SIZE)
    return {'name': name, 'value': through(g, gr.HEADERS[name]).strip(b' \t'), 'in_request': g.bool()}


_BY_SIZE = []


def check_header(case):
    name, value = case['name'], case['value']
    if name in HAS_COMMENT and too_deep(value):
        return False, ['too deep']
    ok = abnf.automaton(gr.HEADERS[name]).accepts(value)
    entries = [(name, value)]
    if case['in_request']:
        exch = httpolice.Exchange(request(headers=entries), [])
    else:
        exch = httpolice.Exchange(None, [
            httpolice.Response('HTTP/1.1', 200, 'OK', entries, b'')])
    sut('check_exchange', httpolice.check_exchange, exch)
    n = notices(exch).count(1000)
    require(n == (0 if ok else 1),
            '%s: %r is %s by the grammar, but no. 1000 was reported %d times',
            name, value, 'valid' if ok else 'invalid', n)
    return bool(value), ['valid' if ok else 'invalid']


# ------------------------------------------------------------------ other places

PLACES = {
    'method': (gr.method, 1292),
    'target': (gr.alt(gr.origin_form, gr.absolute_URI), 1045),
    'reason': (gr.reason_phrase, 1294),
    'name': (gr.token, 1293),
    'trailer name': (gr.token, 1293),
}


def gen_place(g):
    place = g.choice(['target', 'target', 'method', 'reason', 'name', 'trailer name'])
    v = value_of(g, PLACES[place][0])
    s = v.decode('latin-1')
    if g.bool(5):
        i = g.int(0, len(s))
        s = s[:i] + g.choice(['\u0100', '\u2028', '\U0001f600', '\u0430']) + s[i:]
    return {'place': place, 'value': s}


def check_place(case):
    place, value = case['place'], case['value']
    expr, notice = PLACES[place]
    try:
        raw = value.encode('latin-1')
    except UnicodeError:
        ok = False
    else:
        ok = abnf.automaton(expr).accepts(raw)
        if place == 'method' and value == 'CONNECT':
            return False, []
    if place == 'method':
        exch = httpolice.Exchange(request(method=value), [])
    elif place == 'target':
        exch = httpolice.Exchange(request(target=value), [])
    elif place == 'name':
        exch = httpolice.Exchange(request(headers=[(value, b'x')]), [])
    elif place == 'trailer name':
        exch = httpolice.Exchange(httpolice.Request(
            'http', 'POST', '/', 'HTTP/1.1', [('Transfer-Encoding', 'chunked')], b'',
            [(value, b'x')]), [])
    else:
        exch = httpolice.Exchange(None, [
            httpolice.Response('HTTP/1.1', 200, value, [], b'')])
    sut('check_exchange', httpolice.check_exchange, exch)
    n = notices(exch).count(notice)
    require(n == (0 if ok else 1),
            '%s: %r is %s by the grammar, but no. %d was reported %d times',
            place, value, 'valid' if ok else 'invalid', notice, n)
    return bool(value), [place + (' valid' if ok else ' invalid')]


# RFC 7230 5.3: which forms of the target go with which method.

FORMS = {'CONNECT': gr.authority,
         'OPTIONS': gr.alt(gr.origin_form, gr.absolute_URI, '*')}
OTHER_FORM = gr.alt(gr.origin_form, gr.absolute_URI)


def gen_form(g):
    kind = g.choice([gr.origin_form, gr.absolute_URI, gr.authority, gr.lit('*')])
    v = abnf.sample(kind, g)
    if g.bool(30):
        v = mutate(g, v)
    return {'method': g.choice(['CONNECT', 'OPTIONS', 'GET', 'PUT', 'connect']),
            'target': v.decode('latin-1')}


def check_form(case):
    target = case['target']
    ok = abnf.automaton(FORMS.get(case['method'], OTHER_FORM)).accepts(target.encode('latin-1'))
    exch = httpolice.Exchange(request(method=case['method'], target=target), [])
    sut('check_exchange', httpolice.check_exchange, exch)
    n = notices(exch).count(1045)
    require(n == (0 if ok else 1), '%s: target %r is %s, but no. 1045 was reported %d times',
            case['method'], target, 'valid' if ok else 'invalid', n)
    return bool(target), ['%s %s' % (case['method'], 'valid' if ok else 'invalid')]


# ------------------------------------------------------------------ arguments

def quote(v, g=None):
    return b'"' + v.replace(b'\\', b'\\\\').replace(b'"', b'\\"') + b'"'


QS_BYTES = frozenset(b'\t ') | frozenset(range(0x21, 0x7f)) | frozenset(range(0x80, 0x100))


def gen_arg(g):
    header, name = g.choice(ARGS)
    v = value_of(g, gr.ARGS[header, name])
    v = bytes(c for c in v if c in QS_BYTES)
    return {'header': header, 'name': name, 'value': v, 'token': g.bool(),
            'before': g.bool(20), 'after': g.bool(20)}


def check_arg(case):
    header, name, v = case['header'], case['name'], case['value']
    is_token = abnf.automaton(gr.token).accepts(v)
    raw = v if (is_token and case['token']) else quote(v)
    if header in ('Prefer', 'Preference-Applied') and v == b'':
        return False, ['empty preference']      # same as no value
    pair = name.encode() + b'=' + raw
    if header == 'Link':
        value = b'<a>; '
        if case['before']:
            value = b'<b>; rel=next, ' + value + b'rel=x; ' if name != 'rel' else b'<b>; rel=x,' + value
        value += pair
        if case['after']:
            value += b', <c>; rel=y'
    elif header == 'Alt-Svc':
        value = b'h2=":1"; ' + (b'x=y; ' if case['before'] else b'') + pair + \
            (b', h3=":2"' if case['after'] else b'')
    elif header == 'Forwarded':
        value = (b'a=b;' if case['before'] else b'') + pair + (b',c=d' if case['after'] else b'')
    elif header == 'Strict-Transport-Security':
        value = (b'x=y; ' if case['before'] else b'') + pair + (b'; z' if case['after'] else b'')
    else:
        value = (b'x=y, ' if case['before'] else b'') + pair + (b', z' if case['after'] else b'')
    ok = abnf.automaton(gr.ARGS[header, name]).accepts(v)
    if header in ('Prefer', 'Forwarded'):
        exch = httpolice.Exchange(request(headers=[(header, value)]), [])
    else:
        exch = httpolice.Exchange(None, [
            httpolice.Response('HTTP/1.1', 200, 'OK', [(header, value)], b'')])
    sut('check_exchange', httpolice.check_exchange, exch)
    ids = notices(exch)
    require(1000 not in ids, '%s: %r is valid by the grammar, but no. 1000 was reported',
            header, value)
    require(ids.count(1158) == (0 if ok else 1),
            '%s in %s: %r is %s by the grammar, but no. 1158 was reported %d times',
            name, header, v, 'valid' if ok else 'invalid', ids.count(1158))
    return bool(v), ['valid' if ok else 'invalid']


def gen_altauth(g):
    v = value_of(g, gr.ALT_AUTHORITY)
    return {'value': bytes(c for c in v if c in QS_BYTES)}


def check_altauth(case):
    v = case['value']
    ok = abnf.automaton(gr.ALT_AUTHORITY).accepts(v)
    exch = httpolice.Exchange(None, [httpolice.Response(
        'HTTP/1.1', 200, 'OK', [('Alt-Svc', b'h2=' + quote(v))], b'')])
    sut('check_exchange', httpolice.check_exchange, exch)
    ids = notices(exch)
    require(ids.count(1257) == (0 if ok else 1),
            'Alt-Svc authority %r is %s, but no. 1257 was reported %d times',
            v, 'valid' if ok else 'invalid', ids.count(1257))
    return bool(v), ['valid' if ok else 'invalid']


PARTS = [
    Part('header', gen_header, check_header, 14000),
    Part('rule', gen_rule, check_header, 14000),
    Part('place', gen_place, check_place, 5000),
    Part('form', gen_form, check_form, 2000),
    Part('arg', gen_arg, check_arg, 4000),
    Part('altauth', gen_altauth, check_altauth, 500),
]
