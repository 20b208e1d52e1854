"""An independent model of the text report, and exchanges with hostile text in them."""
import csv
import os
import re
import tempfile

from lib import seeds, wild
from lib.core import REPO, require

BAD = set(range(0, 9)) | {0xb, 0xc} | set(range(0xe, 0x20)) | set(range(0x7f, 0xa0)) | set(range(0xd800, 0xe000)) | \
    set(range(0xfdd0, 0xfdf0)) | {0xfffe, 0xffff}
BREAKS = {0xd, 0xa, 0x2028, 0x2029}


def clean(s, breaks=True):
    """Non-printable characters (and line breaks) replaced."""
    return ''.join('\ufffd' if ord(c) in BAD or (breaks and ord(c) in BREAKS) else c for c in s)


def cut(s, n):
    return s if len(s) <= n else s[:n - 3] + '...'


def plain(s):
    for a, b in [('\u201c', '"'), ('\u201d', '"'), ('\u2018', "'"), ('\u2019', "'"), ('\u2014', '--'), ('\u2013', '-'),
                 ('\u2212', '-'), ('\u00a0', ' ')]:
        s = s.replace(a, b)
    return s


def _table(name):
    with open(os.path.join(REPO, 'httpolice', 'known', name + '.csv'), encoding='ascii', newline='') as f:
        return list(csv.DictReader(f))


_CACHE = {}


def _cached(name, f):
    if name not in _CACHE:
        _CACHE[name] = f()
    return _CACHE[name]


def status_titles():
    return _cached('st', lambda: {int(r['key']): r['title'] for r in _table('status_code')})


def field_names():
    """Lower case -> canonical."""
    return _cached('h', lambda: {r['key'].lower(): r['key'] for r in _table('header')})


def templates():
    """id -> (regular expression of the title, names of variables)."""
    def load():
        import lxml.etree
        r = {}
        for n in lxml.etree.parse(os.path.join(REPO, 'httpolice', 'notices.xml')).getroot():
            if not isinstance(n.tag, str) or n.get('id') is None:
                continue
            t = n.find('title')
            parts, names = [t.text or ''], []
            for x in t:
                if x.tag == 'var':
                    names.append(x.get('ref'))
                    parts.append(None)
                elif isinstance(x.tag, str):
                    parts.append(''.join(x.itertext()).strip())
                parts.append(x.tail or '')
            parts[0], parts[-1] = parts[0].lstrip(), parts[-1].rstrip()
            r[int(n.get('id'))] = (parts, names)
        return r
    return _cached('titles', load)


def title_regex(ident, text):
    """For the text report (`text`: typography replaced) or for the HTML one."""
    def make():
        parts, _ = templates()[ident]
        return re.compile(''.join('([^\n]*?)' if p is None else re.escape(plain(p) if text else p) for p in parts), re.S)
    return _cached(('re', ident, text), make)


def match_title(ident, title, text):
    """Titles are stripped, so spaces next to an empty variable may be missing."""
    rx = title_regex(ident, text)
    return rx.fullmatch(title) or rx.fullmatch(' ' + title) or rx.fullmatch(title + ' ')


def response_title(status, reason):
    return reason or status_titles().get(status) or '(unknown)'


def markers(case):
    """(exchange marker, [response markers]) for an exchange case."""
    req = case['request']
    if req:
        first = cut('------------ request: %s %s' % (clean(req['method']), clean(req['target'])), 79)
    elif case['responses']:
        first = '------------ unknown request'
    else:
        first = '------------'
    return first, [cut('------------ response: %d %s' % (r['status'], clean(response_title(r['status'], r['reason']))), 60)
                   for r in case['responses']]


LETTER = {'error': 'E', 'comment': 'C', 'debug': 'D'}


def check_vars(case, where, ident, values, msg, req):
    """The variables of a title are filled in from the message.

    `msg`: the message case (or None), `req`: its request if it is a response.
    """
    if case is None:
        return
    names = templates()[ident][1]
    present = {}
    blob = []
    for m in seeds.messages(case):
        for n, v in m['headers'] + (m['trailers'] or []):
            present[n.lower()] = n
            blob += [n, v.decode('latin-1') if isinstance(v, bytes) else v]
        if isinstance(m['body'], bytes):
            blob.append(m['body'].decode('latin-1'))
        blob += [str(m.get('target')), str(m.get('method')), str(m.get('status'))]
    for name, val in zip(names, values):
        exact = None
        if name == 'msg.method':
            exact = msg['method']
        elif name == 'msg.request.method':
            exact = req['method']
        elif name == 'msg.request.version':
            exact = req['version']
        elif name == 'msg.status':
            exact = '%d' % msg['status']
        elif name == 'uppercase':
            exact = msg['method'].upper()
        if exact is not None:
            require(val.strip() == plain(clean(exact)).strip(), '%s: no. %d has %r for %s, the message has %r', where, ident, val, name, exact)
        elif name == 'part_num':
            require(re.fullmatch('[0-9]+', val), '%s: no. %d has %r for %s', where, ident, val, name)
        elif name in ('header', 'entry') and val.lower() in present:
            want = field_names().get(val.lower())
            require(want is None or val == want, '%s: no. %d names the field %r, not %r', where, ident, val, want)
        elif name in ('header', 'entry') and ident not in (1034, 1063, 1064, 1130):
            ok = any(plain(clean(n)).strip() == val.strip() for n in present.values())
            require(ok, '%s: no. %d is about the field %r, which is not there', where, ident, val)


def expected_lines(exch, case):
    """Lines as (exact line) or (prefix, id, message case, request case)."""
    first, resp_markers = markers(case)
    lines = []
    if exch.request is not None:
        lines += [(n, case['request'], None) for n in exch.request.notices]
    for r, rc, mark in zip(exch.responses, case['responses'], resp_markers):
        notices = r.notices
        if notices:
            lines.append(mark)
            lines += [(n, rc, case['request']) for n in notices]
    lines += [(n, None, None) for n in exch.notices]
    return [first] + lines if lines else []


def check_report(text, exchanges, cases):
    """The text report consists of exactly the lines it should; returns the titles in order."""
    require(not text or text.endswith('\n'), 'the last line is not ended')
    require(len(text.split('\n')) == len((text + '.').splitlines()) or
            not (set(map(ord, text)) & (BREAKS - {10})), 'line breaks inside lines: %r', text)
    require(not (set(map(ord, text)) & (BAD | (BREAKS - {10}))), 'non-printable characters in %r', text)
    lines = text.split('\n')[:-1]
    titles = []
    i = 0
    for j, (exch, case) in enumerate(zip(exchanges, cases)):
        for want in expected_lines(exch, case):
            require(i < len(lines), 'the report ends before %r', want)
            line = lines[i]
            i += 1
            if isinstance(want, str):
                require(line == want, 'line %d is %r, not the marker %r', i, line, want)
                continue
            notice, msg, req = want
            prefix = '%s %d ' % (LETTER[notice.severity.name], notice.id)
            require(line.startswith(prefix), 'line %d is %r, not for no. %d (%s)', i, line, notice.id, notice.severity.name)
            title = line[len(prefix):]
            m = match_title(notice.id, title, True)
            require(m, 'line %d: the title of no. %d is %r', i, notice.id, title)
            check_vars(case, 'line %d' % i, notice.id, m.groups(), msg, req)
            titles.append((j, notice.id, title))
    require(i == len(lines), 'extra lines: %r', lines[i:])
    return titles


# ------------------------------------------------------------------ generation

EVIL = ['<script>alert(1)</script>', '"><b>', "'", '&amp;', '&#60;', '</pre>', ']]>', '<!--', '-->', '\x00', '\x1b[31m', '\r\nE 1000 x',
        '\n------------ response: 200 OK', '\u2028', '\u2029', '\x85', '\x0b', '\x0c', '\x1c', '\ufffe', '\ud800', '\udfff', '\ufdd0',
        '\u201cq\u201d', '\u2014', '\xa0', '---- CUT HERE ----', 'a' * 80, 'ы' * 60, '\U0001f600', '{0}', '%s', '%d', '\\', '\t', ' ', '  ',
        '&', '<', '>', 'é', '\u202e', 'x onmouseover=y', '\ufeff', '\U0010ffff', '\x7f', '\r']
_EDGES = [chr(p) for lo, hi in [(0, 8), (0xb, 0xc), (0xe, 0x1f), (0x7f, 0x9f), (0xd800, 0xdfff), (0xfdd0, 0xfdef), (0xfffe, 0xffff),
                                (0x2028, 0x2029), (0x85, 0x85), (0x10000, 0x10ffff)]
          for p in (lo - 1, lo, lo + 1, hi - 1, hi, hi + 1) if 0 <= p < 0x110000]
EVIL_B = [e.encode('utf-8', 'surrogatepass') for e in EVIL] + [b'\xff', b'\x80\x85', b'"\x00"']
NAMES = ['Foo', 'Accept', 'Date', 'Etag', 'CONTENT-TYPE', 'Link', 'Warning', 'Cache-Control', 'Prefer', 'Via', 'X-<b>']


def evil(g):
    return ''.join(g.choice(EVIL) if g.bool(75) else g.choice(_EDGES) for _ in range(g.int(1, 2)))


def _spoil(g, case):
    msgs = seeds.messages(case)
    msg = g.choice(msgs)
    is_req = msg is case['request']
    k = g.int(0, 11)
    if k <= 3:
        if is_req:
            f = g.choice(['method', 'target', 'target', 'version'])
            base = msg[f] or ''
        else:
            f = g.choice(['reason', 'reason', 'reason', 'version'])
            base = msg[f] or ''
        msg[f] = g.choice([lambda: evil(g), lambda: base + evil(g), lambda: evil(g) + base, lambda: ''])()
    elif k == 4 and not is_req:
        msg['status'] = g.choice(wild.STATUSES)
    elif k == 5 and not is_req:
        msg['reason'] = None
    elif k <= 7:
        name = g.choice([lambda: g.choice(NAMES), lambda: g.choice(NAMES) + evil(g), lambda: evil(g)])()
        value = g.choice([lambda: b'x', lambda: g.choice(EVIL_B), lambda: evil(g)])()
        entry = (name, value)
        if g.bool(30):
            msg['trailers'] = (msg['trailers'] or []) + [entry]
        else:
            msg['headers'].insert(g.int(0, len(msg['headers'])), entry)
            if g.bool(30):
                msg['headers'].insert(g.int(0, len(msg['headers'])), entry)
    elif k <= 9 and msg['headers']:
        # Inside an existing value, perhaps quoted.
        i = g.int(0, len(msg['headers']) - 1)
        n, v = msg['headers'][i]
        if isinstance(v, str):
            v = v.encode('latin-1', 'replace')
        e = g.choice(EVIL_B)
        at = g.int(0, len(v))
        msg['headers'][i] = (n, g.choice([v[:at] + e + v[at:], v + b', ' + e, v + b';a="' + e + b'"', v.replace(b'a', e, 1)]))
    elif k == 10:
        msg['body'] = g.choice([g.choice(EVIL_B), g.choice(EVIL_B) * 300, b'{"a": "' + g.choice(EVIL_B) + b'"}', wild.UNAVAILABLE])
    else:
        msg['remark'] = evil(g)


_CUT = [' ', ' ', '  ', '.', '-', 'x', 'y', '\xe9', '\u2026', '...', '\t', '\u201c', '/', '\u3000', '\u0301', '\U0001f600']


def around(g, prefix, most):
    """Text that makes a marker end about where it would be cut."""
    s = 'x' * max(0, most - len(prefix) - g.int(0, 12))
    return s + ''.join(g.choice(_CUT) for _ in range(g.int(0, 14)))


def gen_cut(g):
    case = wild.exchange(g)
    case['request'] = case['request'] and dict(case['request'], method=g.choice(['GET', 'M-SEARCH', 'x' * 70]))
    req = case['request']
    if req:
        req['target'] = around(g, '------------ request: %s ' % req['method'], 79)
        if g.bool(5):
            req['method'], req['target'] = around(g, '------------ request: ', 79), '/'
    for r in case['responses']:
        r['reason'] = around(g, '------------ response: %d ' % r['status'], 60)
    return {'exchanges': [case], 'silence': 'no', 'box': None, 'box_at': 0, 'own': None}


def exchange(g):
    case = seeds.exchange(g, 2) if g.bool(70) else wild.exchange(g)
    if seeds.messages(case):
        for _ in range(g.int(0, 4)):
            _spoil(g, case)
    return case


def gen(g):
    return {'exchanges': g.list(lambda: exchange(g), 1, 3),
            'silence': g.choice(['no', 'no', 'no', 'all', 'first', 'half', 'odd']),
            'box': g.choice([None] * 6 + [b'', b'junk', b'GET /\r\n\r\n', b'GET / HTTP/1.1\r\nHost: a\r\n\r\nx']),
            'box_at': g.int(0, 3), 'own': g.choice([None] * 9 + [0, 1, 2])}


def make(case):
    """Checked exchanges and their cases (None for boxes)."""
    import httpolice
    from lib.core import sut
    cases = list(case['exchanges'])
    exchanges = [sut('constructing', wild.build, c) for c in cases]
    for e in exchanges:
        sut('check_exchange', httpolice.check_exchange, e)
    if case['box'] is not None:
        from httpolice.inputs import formats
        fd, path = tempfile.mkstemp(prefix='box-')
        try:
            os.write(fd, case['box'])
            os.close(fd)
            found = list(sut('req-stream', formats['req-stream'], [path]))
        finally:
            os.unlink(path)
        for e in found:
            sut('check_exchange', httpolice.check_exchange, e)
            if e.request is None and not e.responses:
                at = min(case['box_at'], len(exchanges))
                exchanges.insert(at, e)
                cases.insert(at, {'request': None, 'responses': []})
    done = []
    for e in exchanges:
        objs = ([e.request] if e.request is not None else []) + e.responses
        ids = sorted({n.id for o in objs + [e] for n in o.notices})
        # (a notice on the exchange itself; only boxes have them otherwise)
        if case.get('own') == len(done) and hasattr(e, 'complain'):
            e.complain(1278, path='x<y>')
        done.append(e)
        how = case['silence']
        if how == 'all':
            e.silence(ids)
        elif how == 'first' and objs:
            objs[0].silence(ids)
        elif how == 'half':
            e.silence(ids[::2])
        elif how == 'odd':
            for o in objs[1:]:
                o.silence(ids)
    return exchanges, cases
