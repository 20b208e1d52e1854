"""Parameters inside structured headers are judged by their own rules."""
import re

import httpolice
from lib import abnf, grammar as gr, proto, rules
from lib.core import Part, require, sut
from lib.strings import mutate

PID = 'C18'
TECHNIQUE = 'property-based testing of generated field values against a reference model of the rules for their parameters'
NOTE = ('values of structured fields are generated as lists of elements with parameters, together with their meaning; an independent model, with independent grammars of the '
        'arguments, says which notices are due')
RULE = 'a case is non-trivial if the model says that at least one notice of this property is due'
ASSUMPTIONS = ['the snapshot of what is known about fields in lib/tables.json', 'the grammars of arguments in lib/grammar.py']

BOTH = {1013, 1156, 1157, 1158, 1225, 1226, 1253, 1254, 1256, 1257, 1282, 1296, 1297, 1299, 1300, 1307, 1308, 1309, 1042}
REQ_OWN = BOTH | {1285, 1287, 1288, 1289, 1290}
RESP_OWN = BOTH | {1218, 1219, 1220, 1247, 1248, 1249, 1250, 1251, 1252}
OWN = REQ_OWN | RESP_OWN
COUNTED = {1013, 1285, 1220, 1247, 1042}

QS = set('\t ') | {chr(c) for c in range(0x21, 0x7f)} | {chr(c) for c in range(0x80, 0x100)}


def matches(expr, s):
    return abnf.automaton(expr).accepts(s.encode('latin-1'))


def doubles(names):
    return {n for n in names if names.count(n) > 1}


class Reading:
    """Goes through the values of one message, line by line."""

    def __init__(self, v):
        self.v = v

    def delims(self, field, value, sure=True):
        """A string that was quoted."""
        for c, key, i in ((',', 'quoted_comma_bad', 1299), (';', 'quoted_semicolon_bad', 1300)):
            if value is not None and c in value and proto.info(field, key):
                if sure:
                    self.v(i, about=field)
                else:
                    self.v.skip(i)

    def argument(self, field, name, value, none=(), required=()):
        """Whether it is fine."""
        if value is None:
            self.v(1156, name in required, about=(field, name))
            return name not in required
        if name in none:
            self.v(1157, about=(field, name))
            self.delims(field, value, False)
            return False
        expr = gr.ARGS.get((field, name))
        ok = expr is None or matches(expr, value)
        self.v(1158, not ok, about=(field, name, value))
        self.delims(field, value, ok)
        return ok

    def media(self, field, name):
        self.v(1282, name in proto.WRONG_TYPES, about=(field, name))

    def params(self, field, params):
        for _, value, _ in params:
            self.delims(field, value)

    def ext(self, field, charset, raw):
        if charset.lower() != 'utf-8':
            self.v(1253, about=(field, charset))
            return
        try:
            unpercent(raw).decode('utf-8')
        except UnicodeDecodeError:
            self.v(1254, about=(field, charset))

    # One line each.

    def prefer(self, items):
        for name, value, params in items:
            self.argument('Prefer', name, value or None, ('respond-async',), ('return', 'wait', 'handling'))
            for _, x in params:
                self.delims('Prefer', x)

    def preference_applied(self, items):
        for name, value in items:
            self.argument('Preference-Applied', name, value or None, ('respond-async',), ('return', 'wait', 'handling'))

    def forwarded(self, elements):
        for pairs in elements:
            for name, value in pairs:
                self.argument('Forwarded', name, value)
            twice = doubles([n for n, _ in pairs])
            self.v(1296, twice, about=[('Forwarded', n) for n in twice])
        names = [pairs[0][0] for pairs in elements if pairs]
        self.v(1297, len(elements) > 1 and all(len(p) == 1 for p in elements) and not doubles(names), about=('Forwarded', str(len(elements))))

    def strict_transport_security(self, directives):
        for name, value in directives:
            self.argument('Strict-Transport-Security', name, value, ('includesubdomains',), ('max-age',))

    def alt_svc(self, alternatives):
        if alternatives == 'clear':
            return
        for protocol, authority, params in alternatives:
            self.v(1256, not protocol_id(protocol))
            self.v(1257, not matches(gr.ALT_AUTHORITY, authority), about=(authority,))
            for name, value in params:
                self.argument('Alt-Svc', name, value)

    def link(self, links):
        for target, params in links:
            self.delims('Link', target, False)
            seen = set()
            for name, value, quoted in params:
                if name in ('rel', 'media', 'title', 'title*', 'type'):
                    if name in seen:
                        self.v(1225, about=('Link', name))
                        self.delims('Link', value, False)
                        continue
                    seen.add(name)
                self.v(1307, name == 'title' and value is not None and not quoted, about='Link')
                self.v(1308, name == 'hreflang' and value is not None and quoted, about='Link')
                expr = gr.ARGS.get(('Link', name))
                ok = expr is None or matches(expr, value or '')
                self.v(1158, not ok, about=('Link', name, value or ''))
                if value is not None:
                    self.delims('Link', value, ok and name != 'title*')
                if ok and name == 'title*':
                    self.ext('Link', *value.split("'")[::2])
                if ok and name == 'type':
                    self.media('Link', value.lower())
                self.v(1226, name == 'rev', about='Link')
            self.v(1309, 'rel' not in seen, about='Link')

    def content_disposition(self, value):
        for name, x, _ in value[1]:
            if name == 'filename*':
                self.ext('Content-Disposition', *x)

    def content_type(self, value):
        self.media('Content-Type', value[0])
        self.params('Content-Type', value[1])

    def accept(self, items):
        for name, params in items:
            self.media('Accept', name)
            self.params('Accept', params)

    def accept_patch(self, items, field='Accept-Patch'):
        for name, params in items:
            self.media(field, name)
            self.params(field, params)

    def accept_post(self, items):
        self.accept_patch(items, 'Accept-Post')

    def te(self, items):
        for params in items:
            self.params('TE', params)

    def transfer_encoding(self, items):
        for params in items:
            self.params('Transfer-Encoding', params)

    def via(self, items):
        for remark in items:
            self.delims('Via', remark)

    def warning(self, items):
        for text in items:
            self.delims('Warning', text)


def protocol_id(s):
    """RFC 7838 section 3."""
    plain = proto.TOKEN_CHARS - {'%'}
    for m in re.finditer(r'%(..)?|.', s, re.DOTALL):
        piece = m.group()
        if piece[0] != '%':
            continue
        if not re.match(r'%[0-9A-F]{2}$', piece) or chr(int(piece[1:], 16)) in plain:
            return False
    return True


def unpercent(s):
    return re.sub(rb'%([0-9A-Fa-f]{2})', lambda m: bytes([int(m.group(1), 16)]), s.encode('latin-1'))


def common(msg, v):
    r = Reading(v)
    several = []
    for name in msg.names:
        field = msg[name]
        if proto.info(name, 'rule') == 'single' or name.lower() == 'strict-transport-security':
            bad = field.n > 1
        else:
            bad = field.spoiled
        if bad:
            several.append(name)
        read = getattr(r, name.lower().replace('-', '_'), None)
        if name.lower() in MINE and read is not None:
            for _, value in field.lines:
                if value != proto.BAD:
                    read(value)
    v(1013, n=len(several), about=several)
    ct = msg['Content-Type']
    if ct.ok:
        twice = doubles([p[0] for p in ct.val[1]])
        v(1042, n=len(twice), about=twice)


def request_model(req, v):
    common(req, v)
    method = req.data['method']
    items = req['Prefer'].items
    first = {}
    for name, value, _ in items:
        first.setdefault(name, value or None)
    everything = {(name, (value or '').lower()) for name, value, _ in items}
    twice = doubles([i[0] for i in items])
    v(1285, n=len(twice), about=twice)
    if 'respond-async' in first:
        if first['respond-async']:
            v.skip(1287)
        v(1287, proto.method_info(method, 'safe'))
    v(1288, method == 'GET' and (first.get('return') or '').lower() == 'minimal')
    v(1289, ('return', 'minimal') in everything and ('return', 'representation') in everything)
    v(1290, ('handling', 'strict') in everything and ('handling', 'lenient') in everything)


def model(resp, req, v):
    common(resp, v)
    sts = resp['Strict-Transport-Security']
    if sts.ok:
        names = [n for n, _ in sts.val]
        v(1218, 'max-age' not in names)
        ages = [x for n, x in sts.val if n == 'max-age']
        subs = [x for n, x in sts.val if n == 'includesubdomains']
        if subs and subs[0] is not None:
            v.skip(1219)
        v(1219, ages and ages[0] is not None and re.match('0+$', ages[0]) and subs)
        v(1220, n=len(doubles(names)), about=doubles(names))
    cd = resp['Content-Disposition']
    if cd.ok:
        params = cd.val[1]
        names = [n for n, _, _ in params]
        v(1247, n=len(doubles(names)), about=doubles(names))
        plain = [x for n, x, _ in params if n == 'filename']
        if plain:
            v(1248, re.search('%[0-9A-Fa-f]{2}', plain[0]))
            v(1249, '"' in plain[0] or '\\' in plain[0])
            if [raw for n, _, raw in params if n == 'filename'][0].count(b'\\') and not ('"' in plain[0] or '\\' in plain[0]):
                v.skip(1249)        # something else was escaped
            v(1250, any(c > '\x7f' for c in plain[0]))
        if 'filename*' in names:
            v(1251, not plain)
            v(1252, plain and names.index('filename*') < names.index('filename'))


# ------------------------------------------------------------------ generators

CHUNKS = ['a', 'b', ' ', ',', ';', ', ', '; ', '"', '\\', '\xe9', '=', '%41', '%', '\t', '1', 'x/y', "'"]


def text(g, most=4):
    return ''.join(g.list(lambda: g.choice(CHUNKS), 0, most))


def value(g, field, name, curated=()):
    """Something for an argument, of the right grammar or not."""
    expr = gr.ARGS.get((field, name))
    k = g.int(0, 9)
    if curated and k < 5:
        return g.choice(curated)
    if expr is None or k == 9:
        return text(g)
    raw = abnf.sample(expr, g)
    if g.bool(25):
        raw = mutate(g, raw)
    return ''.join(c for c in raw.decode('latin-1') if c in QS)[:60]


def pair(g, name, x, eq=b'=', percent=8, quote=25):
    if x is None:
        return proto.cased(g, name, percent).encode(), False
    raw, q = proto.arg(g, x, quote)
    return proto.cased(g, name, percent).encode() + eq + raw, q


PREF_NAMES = ['respond-async', 'return', 'return', 'return', 'wait', 'handling', 'handling', 'foo', 'bar', 'depth-noroot']
CURATED = {'return': ['minimal', 'representation', 'minimal', 'representation', 'Minimal', 'mini', ''], 'wait': ['5', '10', '0', '', '1.5', '-1', 'x'],
           'handling': ['strict', 'lenient', 'strict', 'lenient', 'LENIENT', '', 'x'], 'respond-async': ['', 'x', '1', 'a,b']}


def pref(g):
    name = g.choice(PREF_NAMES)
    needs = name in ('return', 'wait', 'handling')
    x = value(g, 'Prefer', name, CURATED.get(name, ())) if g.bool(90 if needs else 15) else None
    raw, _ = pair(g, name, x)
    return raw, name, x


def prefer(g):
    parts, out = [], []
    for _ in range(g.int(1, 4)):
        raw, name, x = pref(g)
        params = []
        for _ in range(g.weighted([(75, 0), (20, 1), (5, 2)])):
            n, y = g.choice(['a', 'wait', 'return', 'b']), text(g) if g.bool(70) else None
            p, _ = pair(g, n, y)
            raw += g.choice([b';', b'; ', b' ;', b'; ;']) + p
            params.append((n, y))
        parts.append(raw)
        out.append((name, x, params))
    return proto.joined(g, parts), out


def preference_applied(g):
    chosen = [pref(g) for _ in range(g.int(1, 3))]
    return proto.joined(g, [c[0] for c in chosen]), [c[1:] for c in chosen]


NODES = ['1.2.3.4', '1.2.3.4:80', '[::1]', '[::1]:80', 'unknown', '_a', '_a:_b', 'UNKNOWN', '::1', '1.2.3', 'a.com', '1.2.3.4:', '_', '1.2.3.4:123456', '']
FORWARDED = {'by': NODES, 'for': NODES, 'host': ['a.com', 'a.com:80', '[::1]', 'a b', 'a:b', ''], 'proto': ['http', 'https', 'h2', '1', 'a:', ''], 'ext': ['a', '', 'a,b', 'a;b'], 'x': ['y']}


def forwarded(g):
    parts, out = [], []
    names = ['for', 'for', 'by', 'host', 'proto', 'ext', 'x']
    for _ in range(g.weighted([(45, 1), (35, 2), (20, 3)])):
        pairs, raws = [], []
        for _ in range(g.weighted([(50, 1), (30, 2), (20, 3)])):
            n = g.choice(names)
            x = value(g, 'Forwarded', n, FORWARDED[n])
            raws.append(pair(g, n, x, percent=12)[0])
            pairs.append((n, x))
        raw = b';'.join(raws)
        if g.bool(6):
            raw = g.choice([raw + b';', b';' + raw, raw.replace(b';', b';;', 1) if b'"' not in raw else raw])
        if g.bool(4):
            # An element of nothing.
            parts.append(g.choice([b';', b';;']))
            out.append([])
        parts.append(raw)
        out.append(pairs)
    return g.choice([b', ', b', ', b',', b' ,']).join(parts), out


def hsts(g):
    out, raw = [], b''
    for i in range(g.weighted([(30, 1), (45, 2), (20, 3), (5, 4)])):
        n = g.choice(['max-age', 'max-age', 'max-age', 'includesubdomains', 'includesubdomains', 'preload', 'foo', 'max'])
        x = None
        if g.bool({'max-age': 92, 'includesubdomains': 6}.get(n, 30)):
            x = value(g, 'Strict-Transport-Security', n, ['0', '0', '1', '31536000', '00', '', '-1', 'x', '1;2'] if n == 'max-age' else ['a', '', '1', 'a;b', 'a,b'])
        shown = 'includeSubDomains' if n == 'includesubdomains' and g.bool(80) else n
        raw += (g.choice([b';', b'; ', b' ; ', b';;']) if i else b'') + pair(g, shown, x, g.choice([b'=', b'=', b'=', b' = ']))[0]
        out.append((n, x))
    return raw, out


PROTOCOLS = ['h2', 'h3', 'http%2F1.1', 'http%2f1.1', 'h%32', '%25', '%', 'a%', 'a%2', '%zz', 'w%3Dx%3Ay%23z', '%FF', '%ff', '%00', 'x%25y', '!', '%21', 'a+b', '%2B', '%20', '%68']
AUTHORITIES = [':443', 'a.com:443', '[::1]:80', 'a.com', '', ':', 'a b:1', ':x', 'a.com:80:', '1.2.3.4:1', 'a,b:1', 'a;b:1', 'http://a:1', '%zz:1', '[:1', 'a"b:1']


def alt_svc(g):
    if g.bool(8):
        return b'clear', 'clear'
    parts, out = [], []
    for _ in range(g.weighted([(60, 1), (30, 2), (10, 3)])):
        p = g.choice(PROTOCOLS)
        a = g.choice(AUTHORITIES)
        if g.bool(25):
            a = abnf.sample(gr.ALT_AUTHORITY, g).decode('latin-1')[:60]
        raw = p.encode() + b'=' + proto.quoted(a, g)
        params = []
        for _ in range(g.weighted([(40, 0), (35, 1), (25, 2)])):
            n = g.choice(['ma', 'ma', 'persist', 'foo'])
            x = value(g, 'Alt-Svc', n, {'ma': ['1', '0', '', 'x', '-1', '3600'], 'persist': ['1', '1', '0', '2', '', '11', 'true']}.get(n, ()))
            q, _ = proto.arg(g, x, 25)
            raw += g.choice([b';', b'; ', b' ; ']) + n.encode() + b'=' + q
            params.append((n, x))
        parts.append(raw)
        out.append((p, a, params))
    return proto.joined(g, parts), out


EXT = ["UTF-8''a", "utf-8'en'%e2%82%ac", "UTF-8''%C3%A9", "UTF-8''%ff", "ISO-8859-1''%e9", "iso-8859-1'en'a", "UTF-8''%C3", "Utf-8''", "utf8''a", "UTF-8''%ed%a0%80", "UTF-8'de-CH'%00",
       "US-ASCII''a", "UTF-8''a%20b", "UTF-16''a", "utf-8'en'%f0%9f%98%80"]
BAD_EXT = ["UTF-8'a", 'a', '', "UTF-8''%zz", "UTF-8''a b", "'en'a", "UTF-8'e_n'a", "UTF-8''a'b", "UTF-8''%e", "UTF-8''a*"]
TARGETS = ['a', 'http://a.com/', '', '/x?y', '/a,b', '/a;b', '#x']
LINK_CURATED = {
    'rel': ['next', 'prev', 'next prev', 'http://a.com/x', 'x.y-1', 'Next', '', ' next', 'next ', 'next  prev', 'a:b,c', 'a:b;c', 'a_b', '1a', '-a', 'stylesheet'],
    'rev': ['made', 'next', '', 'Made', 'a b'],
    'hreflang': ['en', 'de-CH', 'e_n', '', '*', 'x-klingon', 'en-', 'i-default', 'abcdefghi'],
    'type': ['text/html', 'text/json', 'TEXT/JSON', 'plain/text', 'application/text', 'text', 'text/', '', 'text/html;a=b', 'a/b/c', 'text/html ', 'image/*', 'application/texts'],
    'title*': EXT + BAD_EXT, 'title': ['x', 'a b', '', 'a,b', 'a;b', 'x'], 'media': ['screen', 'a,b', 'all', ''], 'anchor': ['#x', '/x', 'http://a.com/', 'a b', '%zz', '', '[', '/a,b'], 'foo': ['x', 'a,b', 'a;b', '']}


def link(g):
    parts, out = [], []
    for _ in range(g.weighted([(65, 1), (25, 2), (10, 3)])):
        target = g.choice(TARGETS[:5] if g.bool(90) else TARGETS)
        raw = b'<' + target.encode() + b'>'
        params = []
        names = [g.choice(sorted(LINK_CURATED)) for _ in range(g.int(0, 3))]
        if g.bool(75):
            names.append('rel')
        if names and g.bool(15):
            names.append(g.choice(names))
        for n in g.shuffle(names):
            x = value(g, 'Link', n, LINK_CURATED[n]) if g.bool(95) else None
            # These are best said the way they are usually said.
            quote = {'title': 85, 'hreflang': 12, 'rel': 60}.get(n, 40)
            p, q = pair(g, n, x, quote=quote)
            raw += g.choice([b';', b'; ', b' ; ']) + p
            params.append((n, x, q))
        parts.append(raw)
        out.append((target, params))
    return proto.joined(g, parts), out


def content_disposition(g):
    t = g.choice(['inline', 'attachment', 'attachment', 'foo'])
    raw, params = proto.cased(g, t).encode(), []
    names = [g.choice(['filename', 'filename', 'filename', 'filename*', 'filename*', 'foo', 'name', 'filename2'])
             for _ in range(g.weighted([(15, 0), (35, 1), (30, 2), (14, 3), (6, 4)]))]
    if g.bool(12):
        names = g.shuffle(['filename', 'filename*'] + [g.choice(['foo', 'name', 'size']) for _ in range(g.int(0, 2))])
    for n in names:
        if n == 'filename*':
            x = g.choice(EXT)
            shown = x.encode()
            x = tuple(x.split("'")[::2])
            params.append((n, x, shown))
        else:
            x = g.choice(['a', 'a.txt', 'a b.txt', 'a%41.txt', '100%', '%zz', '%4', 'a"b', 'a\\b', '\xe9.txt', '', 'a,b', 'a;b', '\x80', 'x~']) if g.bool(75) else text(g)
            shown, _ = proto.arg(g, x, 50)
            params.append((n, x, shown))
        raw += g.choice([b';', b'; ', b' ; ']) + proto.cased(g, n).encode() + g.choice([b'=', b'=', b'=', b' = ']) + shown
    return raw, (t, params)


def params(g, names, most=3):
    raw, out = b'', []
    for _ in range(g.int(0, most)):
        n = g.choice(names)
        x = text(g) if g.bool(50) else g.choice(['a', 'x y', 'utf-8', 'x'])
        shown, q = proto.arg(g, x, 25)
        raw += g.choice([b';', b'; ', b' ; ']) + proto.cased(g, n).encode() + b'=' + shown
        out.append((n, x, q))
    return raw, out


def media(g):
    return g.choice(proto.WRONG_TYPES if g.bool(15) else ['text/plain', 'text/html', 'application/octet-stream', 'application/json', 'application/texts', 'plain/texts', 'text/jsonx', 'x-text/json'])


def content_type(g):
    raw, ps = params(g, ['charset', 'a', 'b', 'version'])
    t = media(g)
    return proto.cased(g, t).encode() + raw, (t, ps)


def media_list(g):
    parts, out = [], []
    for _ in range(g.int(1, 3)):
        raw, (t, ps) = content_type(g)
        parts.append(raw)
        out.append((t, ps))
    return proto.joined(g, parts), out


def accept(g):
    parts, out = [], []
    for _ in range(g.int(1, 3)):
        t = media(g) if g.bool(80) else g.choice(['*/*', 'text/*', 'plain/*'])
        raw, ps = params(g, ['a', 'b', 'level'], 2)
        raw = proto.cased(g, t).encode() + raw
        if g.bool(40):
            raw += g.choice([b';q=0.5', b'; q=1', b';Q=0'])
            if g.bool(50):
                more, ext = params(g, ['x', 'y'], 2)
                raw += more
                ps = ps + ext
                if g.bool(20):
                    raw += b';z'
        parts.append(raw)
        out.append((t, ps))
    return proto.joined(g, parts), out


def codings(ranked):
    def gen(g):
        parts, out = [], []
        for _ in range(g.int(1, 2)):
            if g.bool(40):
                parts.append(g.choice([b'gzip', b'chunked', b'deflate'] if not ranked else [b'trailers', b'gzip', b'deflate']))
                out.append([])
                continue
            raw, ps = params(g, ['a', 'b', 'level'], 2)
            raw = b'foo' + raw
            if ranked and g.bool(40):
                raw += b';q=0.5'
            parts.append(raw)
            out.append(ps)
        return proto.joined(g, parts), out
    return gen


def via(g):
    parts, out = [], []
    for _ in range(g.int(1, 3)):
        raw, remark = g.choice([b'1.1 a', b'1.0 a.com:80', b'HTTP/2 [::1]', b'1.1 _x']), None
        if g.bool(60):
            remark = g.choice(['x', 'a, b', 'a; b', '', 'a (b, c) d', '\\, x', 'no comma', ','])
            raw += b' (' + remark.encode() + b')'
        parts.append(raw)
        out.append(remark)
    return proto.joined(g, parts), out


def warning(g):
    parts, out = [], []
    for _ in range(g.int(1, 2)):
        t = g.choice(['x', 'a, b', 'a; b', '', 'a "b" c', '1,2'])
        parts.append(g.choice([b'110', b'299', b'199']) + b' ' + g.choice([b'-', b'a.com:80']) + b' ' + proto.quoted(t, g) + (b' "Sun, 06 Nov 1994 08:49:37 GMT"' if g.bool(15) else b''))
        out.append(t)
    return proto.joined(g, parts), out


MAKERS = {'Prefer': prefer, 'Preference-Applied': preference_applied, 'Forwarded': forwarded, 'Strict-Transport-Security': hsts, 'Alt-Svc': alt_svc, 'Link': link,
          'Content-Disposition': content_disposition, 'Content-Type': content_type, 'Accept': accept, 'Accept-Patch': media_list, 'Accept-Post': media_list, 'TE': codings(True),
          'Transfer-Encoding': codings(False), 'Via': via, 'Warning': warning}
MINE = {n.lower() for n in MAKERS}
IN_REQUEST = ['Prefer', 'Prefer', 'Prefer', 'Forwarded', 'Forwarded', 'Accept', 'Content-Type', 'TE', 'Via', 'Link']
IN_RESPONSE = ['Preference-Applied', 'Strict-Transport-Security', 'Strict-Transport-Security', 'Alt-Svc', 'Link', 'Link', 'Link', 'Content-Disposition', 'Content-Disposition',
               'Content-Type', 'Accept-Patch', 'Accept-Post', 'Transfer-Encoding', 'Via', 'Warning']


def headers(g, pool):
    lines = []
    for _ in range(g.weighted([(65, 1), (25, 2), (10, 3)])):
        name = g.choice(pool if g.bool(93) else sorted(MAKERS))
        for _ in range(2 if g.bool(10) else 1):
            lines.append(proto.field(g, name, 3, MAKERS[name]))
    return lines


def gen(g):
    req = proto.request(g, [], empty=95, noisy=0, pool=['GET', 'GET', 'POST', 'HEAD', 'PUT', 'OPTIONS'])
    req['headers'] = [h for h in req['headers'] if h[0].lower() != 'content-type'] + headers(g, IN_REQUEST)
    req['trailers'] = None
    resp = proto.response(g, [], noisy=0, empty=95)
    resp['headers'] = [h for h in resp['headers'] if h[0].lower() != 'content-type'] + headers(g, IN_RESPONSE)
    resp['trailers'] = None
    if g.bool(3) and 'Transfer-Encoding' not in [h[0] for h in resp['headers']]:
        resp['trailers'] = headers(g, IN_RESPONSE)
    which = g.int(0, 9)
    return {'request': req if which < 6 else None, 'responses': [resp] if which > 4 else []}


SINGLE = sorted(n for n in proto.HEADERS if proto.info(n, 'rule') == 'single' and n in proto.GENS and n.lower() not in MINE)
STARRED = ['If-Match', 'If-None-Match', 'Vary', 'Accept-Ranges']


def gen_repeated(g):
    """Fields that may not be repeated, and lists that may not be mixed with something special."""
    def lines():
        out = []
        for _ in range(g.weighted([(60, 1), (40, 2)])):
            name = g.choice(SINGLE) if g.bool(65) else g.choice(STARRED)
            for _ in range(g.int(1, 3)):
                out.append(proto.field(g, name, 8, proto.starred(proto.NAMES, percent=45) if name == 'Vary' else None))
        return g.shuffle(out) if g.bool() else out
    req = proto.request(g, [], empty=95, noisy=0, pool=['GET'])
    resp = proto.response(g, [], noisy=0, empty=95)
    for m in (req, resp):
        m['headers'] = [h for h in m['headers'] if h[0].lower() != 'content-type'] + lines()
        m['trailers'] = lines() if g.bool(10) else None
    which = g.int(0, 9)
    return {'request': req if which < 6 else None, 'responses': [resp] if which > 4 else []}


def check(case):
    return rules.judge(case, REQ_OWN, RESP_OWN, request_model, model, COUNTED)


# ------------------------------------------------------------------ odd spelling

SPELLING = {1014, 1015, 1017, 1151}
ESCAPABLE = ['a', ' ', '"', '\\', '\t', '\xe9', ',', ';', '(', ')', '1', 'x', '~', '!']


class Writer:
    """Writes values, and takes note of everything odd about them."""

    def __init__(self, g, percent):
        self.g = g
        self.percent = percent
        self.due = set()

    def odd(self):
        return self.g.bool(self.percent)

    def bws(self):
        if self.odd():
            self.due.add(1015)
            return self.g.choice([b' ', b'  ', b'\t', b' \t'])
        return b''

    def eq(self):
        return self.bws() + b'=' + self.bws()

    def rws(self):
        if self.odd():
            self.due.add(1014)
            return self.g.choice([b'  ', b'\t', b'   ', b' \t', b'\t '])
        return b' '

    def escaped(self, special):
        out = b''
        for _ in range(self.g.int(0, 4)):
            c = self.g.choice(ESCAPABLE)
            raw = c.encode('latin-1')
            if c in special:
                out += b'\\' + raw
            elif self.odd():
                self.due.add(1017)
                out += b'\\' + raw
            elif c not in '"\\()' or (c in '()' and special == '"\\') or (c == '"' and special != '"\\'):
                out += raw
        return out

    def qs(self):
        return b'"' + self.escaped('"\\') + b'"'

    def val(self):
        return self.qs() if self.g.bool(60) else self.g.choice([b'a', b'x', b'1'])

    def maybe(self, percent, f):
        return f() if self.g.bool(percent) else b''

    def comment(self, depth=2):
        inner = self.escaped('()\\')
        if depth > 1 and self.g.bool(25):
            inner += self.comment(depth - 1) + self.escaped('()\\')
        return b'(' + inner + b')'

    def list(self, element, most=3):
        parts = [element() for _ in range(self.g.int(1, most))]
        for _ in range(2):
            if self.g.bool(self.percent // 2):
                self.due.add(1151)
                parts.insert(self.g.int(0, len(parts)), b'')
        return self.g.choice([b', ', b', ', b',', b' , ', b',\t']).join(parts).strip(b' \t')

    def params(self, eq=b'=', names=(b'a', b'b', b'foo'), most=2, sep=(b';', b'; ', b' ;')):
        return b''.join(self.g.choice(sep) + self.g.choice(names) + (self.eq() if eq is None else eq) + self.val() for _ in range(self.g.int(0, most)))


def _auth(w):
    pairs = []
    for i in range(w.g.int(1, 3)):
        pairs.append(w.g.choice([b'a', b'nonce', b'x']) + w.eq() + w.val())
    return b'Digest ' + b', '.join(pairs)


def _product(w):
    out = b'curl/1'
    for _ in range(w.g.int(0, 3)):
        out += w.rws() + (w.comment() if w.g.bool(60) else w.g.choice([b'foo', b'bar/2']))
    return out


WRITERS = {
    'Authorization': _auth, 'WWW-Authenticate': _auth, 'Proxy-Authenticate': _auth, 'Proxy-Authorization': _auth,
    'User-Agent': _product, 'Server': _product,
    'Link': lambda w: w.list(lambda: b'<a>' + b''.join(b'; ' + n + w.eq() + w.val() for n in w.g.shuffle([b'foo', b'title', b'bar'])[:w.g.int(0, 3)])),
    'TE': lambda w: w.list(lambda: b'foo' + w.params(None)),
    'Transfer-Encoding': lambda w: w.list(lambda: b'foo' + w.maybe(70, lambda: w.params(None))),
    'Via': lambda w: w.list(lambda: w.g.choice([b'1.1', b'HTTP/2']) + w.rws() + b'a' + (w.rws() + w.comment() if w.g.bool(60) else b'')),
    'Content-Type': lambda w: b'text/plain' + w.params(),
    'Accept': lambda w: w.list(lambda: b'text/plain' + w.params() + w.maybe(50, lambda: b';q=0.5;x=' + w.val())),
    'Accept-Patch': lambda w: w.list(lambda: b'text/plain' + w.params()),
    'Prefer': lambda w: w.list(lambda: b'foo' + w.maybe(50, lambda: b'=' + w.val()) + w.params(sep=(b';', b'; ', b' ; '))),
    'Preference-Applied': lambda w: w.list(lambda: b'foo=' + w.val()),
    'Forwarded': lambda w: w.list(lambda: b'ext=' + w.val() + w.params(sep=(b';',))),
    'Cache-Control': lambda w: w.list(lambda: b'foo' + w.maybe(50, lambda: b'=' + w.val())),
    'Pragma': lambda w: w.list(lambda: b'foo' + w.maybe(60, lambda: b'=' + w.val())),
    'Warning': lambda w: w.list(lambda: b'299 - ' + w.qs()),
    'Alt-Svc': lambda w: w.list(lambda: b'h2=":1"' + w.params()),
    'Strict-Transport-Security': lambda w: b'max-age=1' + w.params(),
    'Content-Disposition': lambda w: b'inline' + w.params(),
    'Allow': lambda w: w.list(lambda: w.g.choice([b'GET', b'POST'])),
    'Connection': lambda w: w.list(lambda: w.g.choice([b'close', b'foo'])),
    'Vary': lambda w: w.list(lambda: w.g.choice([b'Foo', b'Accept'])),
    'If-None-Match': lambda w: w.list(lambda: w.g.choice([b'"a"', b'W/"b\\b"', b'"(,"'])),
    'Accept-Language': lambda w: w.list(lambda: w.g.choice([b'en', b'de;q=0.5', b'*'])),
    'Upgrade': lambda w: w.list(lambda: w.g.choice([b'h2c', b'foo/1'])),
    'Content-Language': lambda w: w.list(lambda: w.g.choice([b'en', b'de'])),
    'Accept-Encoding': lambda w: w.list(lambda: w.g.choice([b'gzip', b'br;q=0.1'])),
    'Range': lambda w: b'bytes=' + w.list(lambda: w.g.choice([b'1-2', b'-5', b'7-'])),
    'Access-Control-Allow-Methods': lambda w: w.list(lambda: w.g.choice([b'GET', b'POST'])),
}
SPELLED = sorted(WRITERS)


def gen_spelling(g):
    w = Writer(g, g.choice([0, 20, 20, 50]))
    lines, about = [], []
    for _ in range(g.weighted([(75, 1), (25, 2)])):
        name = g.choice(SPELLED)
        if name not in [n for n, _ in lines]:
            before, w.due = w.due, set()
            lines.append((name, WRITERS[name](w)))
            about += [(i, name) for i in sorted(w.due)]
            w.due |= before
    return {'lines': lines, 'due': sorted(w.due), 'about': about, 'request': g.bool()}


def build_spelling(case):
    entries = [tuple(x) for x in case['lines']]
    req = resp = None
    if case['request']:
        req = httpolice.Request('http', 'GET', '/', 'HTTP/1.1', [('Host', b'a')] + entries, b'')
    else:
        resp = httpolice.Response('HTTP/1.1', 200, 'OK', entries, b'')
    return httpolice.Exchange(req, [resp] if resp else [])


def check_spelling(case):
    exch = build_spelling(case)
    sut('check_exchange', httpolice.check_exchange, exch)
    [req, resp] = [exch.request, (exch.responses or [None])[0]]
    ids = [n.id for n in (req or resp).notices]
    require(1000 not in ids, 'a well-formed value is reported as malformed: %r', case['lines'])
    seen = sorted(set(ids) & SPELLING)
    require(seen == case['due'], 'notices about spelling: %r, should be: %r', seen, case['due'])
    return bool(seen), ['n%d' % i for i in seen] or ['nothing due']


PARTS = [Part('values', gen, check, 20000), Part('repeated', gen_repeated, check, 5000),
         Part('spelling', gen_spelling, check_spelling, 8000)]
