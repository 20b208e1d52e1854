"""C08: previews in the HTML report show the message that was checked."""
import codecs
import gzip
import json
import re
import zlib

import brotli
import httpolice
from lib import grammar as gr, abnf, htmltree, render, seeds, wild
from lib.core import Part, require, same, sut
from lib.strings import mutate

PID = 'C08'
TECHNIQUE = ('exchanges whose header fields are all kinds of valid, mutated and hostile values, and bodies built by encoding known '
             'text; oracle: text extracted from the HTML report equals the message, body previews computed from the known text')
NOTE = ('Random sampling. White space at the ends of the pieces of a start line is not compared. JSON is built from data without '
        'repeated names, so that pretty-printing is defined.')
RULE = ('messages with any header and trailer fields, targets, reasons, remarks; bodies = text x charset x content codings x media '
        'type x length; non-trivial when a header field has recognised tokens or the body is shown after some transformation')


BOMS = [codecs.BOM_UTF16_LE, codecs.BOM_UTF16_BE, codecs.BOM_UTF32_LE, codecs.BOM_UTF32_BE]


def shown(b):
    if isinstance(b, str):
        b = b.encode('latin-1', 'replace')
    return render.clean(b.decode('latin-1'), False)


def squash(s):
    return ' '.join(s.split())


def check_messages(case, rep):
    """Start lines, fields, trailers and remarks; returns the Display of each message."""
    [block] = rep.blocks
    msgs = seeds.messages(case)
    require(len(block.sections) == len(msgs), '%d messages displayed of %d', len(block.sections), len(msgs))
    r = []
    for msg, sec in zip(msgs, block.sections):
        d = htmltree.Display(sec.display)
        r.append(d)
        if msg is case['request']:
            want = [msg['method'], msg['target']] + ([msg['version']] if msg['version'] else [])
        else:
            want = ([msg['version']] if msg['version'] else []) + [
                '%d %s' % (msg['status'], render.response_title(msg['status'], msg['reason']))]
        same('start line', [squash(render.clean(x, False)) for x in want], [squash(x) for x in d.start])
        for what, entries, els in [('header', msg['headers'], d.headers), ('trailer', msg['trailers'] or [], d.trailers)]:
            same('%s fields' % what, ['%s: %s' % (render.clean(n, False), shown(v)) for n, v in entries], [e.text() for e in els])
        if msg['trailers']:
            same('title of the trailer part', 'Headers from the trailer part', d.trailer_title)
        same('remark', squash(render.clean(msg['remark'], False)) if msg.get('remark') else None,
             squash(d.remark) if d.remark is not None else None)
        coded = any(n.lower() == 'content-encoding' for n, _ in msg['headers'] + (msg['trailers'] or []))
        if not (isinstance(msg['body'], bytes) and (coded or msg['body'] in BOMS)):
            # Encoded nothing is nothing.
            same('whether a body is shown', msg['body'] != b'', d.has_body)
        if msg['body'] is None:
            same('the body preview', ('Body is unknown', None), (d.body_title, d.body))
        elif msg['body'] == wild.UNAVAILABLE:
            same('the body preview', ('Body is present, but not available for inspection', None), (d.body_title, d.body))
        elif d.has_body:
            require(msg['body'] and d.body is not None, 'the body is not shown')
    return r


# ------------------------------------------------------------------ header fields

def gen_fields(g):
    k = g.int(0, 9)
    if k < 4:
        case = render.exchange(g)
    elif k < 6:
        case = seeds.exchange(g)
    else:
        # Many valid values, whose tokens are annotated.
        case = seeds.base(g)
        for _ in range(g.int(1, 4)):
            name = g.choice(gr.NAMES) if hasattr(gr, 'NAMES') else g.choice(sorted(gr.HEADERS))
            v = abnf.sample(gr.HEADERS[name], g, [60])
            if g.bool(15):
                v = mutate(g, v)
            if g.bool(30):
                v = v.swapcase()
            msg = g.choice(seeds.messages(case))
            if g.bool(20):
                msg['trailers'] = (msg['trailers'] or []) + [(name, v)]
            else:
                msg['headers'].insert(g.int(0, len(msg['headers'])), (name, v))
    return {'exchange': case, 'unchecked': g.bool(3)}


def check_fields(case):
    exch = sut('constructing', wild.build, case['exchange'])
    if not case['unchecked']:
        sut('check_exchange', httpolice.check_exchange, exch)
    if not seeds.messages(case['exchange']):
        return False, ['empty']
    rep = htmltree.report([exch])
    displays = check_messages(case['exchange'], rep)
    n = sum(len([e for e in p.iter() if e.tag == 'a']) > 1 for d in displays for p in d.headers + d.trailers)
    return n > 0, ['annotated: %s' % (n if n < 4 else '4+')]


# ------------------------------------------------------------------ bodies

CHARSETS = [None, None, None, 'utf-8', 'UTF-8', 'us-ascii', 'iso-8859-1', 'latin1', 'windows-1251', 'utf-16', 'utf-16-le', 'utf-32',
            'shift_jis', 'koi8-r', 'utf8', 'gb18030', 'utf-7']
BAD_CHARSETS = ['foo', 'base64', 'x-user-defined', 'rot13', 'idna2']
WORDS = ['a', 'hello', ' ', '\n', '\r\n', '<b>', '&amp;', '"', "'", 'é', 'ж', '\u2028', '\U0001f600', '\x00', '\x85', '\x1b', '\t',
         '\ufffe', '日本', '0', '{', ']]>', '\ufffd', 'x' * 97, '\x7f', '\n\n', '\x0c']
TYPES = ['text/plain', 'text/html', 'application/octet-stream', 'image/png', 'multipart/mixed; boundary=x', None, 'application/xml',
         'application/x-www-form-urlencoded']
JSON_TYPES = ['application/json', 'application/problem+json', 'Application/VND.foo+JSON', 'application/json-patch+json']


def a_text(g):
    s = ''.join(g.choice(WORDS) for _ in range(g.int(0, 8)))
    k = g.int(0, 9)
    if k < 2 and s:
        n = g.choice([999, 1000, 1001, 1002, 2000])
        s = (s * (n // len(s) + 1))[:n]
    return s


def a_value(g, depth=2):
    k = g.int(0, 9)
    if depth and k < 3:
        return {''.join(g.choice(WORDS[:14]) for _ in range(g.int(0, 2))): a_value(g, depth - 1) for _ in range(g.int(0, 3))}
    if depth and k < 5:
        return [a_value(g, depth - 1) for _ in range(g.int(0, 4))]
    if k < 7:
        return ''.join(g.choice(WORDS) for _ in range(g.int(0, 3)))
    return g.choice([None, True, False, 0, -1, 12345678901234567890, 1.5, 0.1, 1e100, HUGE])


HUGE = 123456789.0625


def finite(x):
    if isinstance(x, float):
        return abs(x) != float('inf')
    if isinstance(x, dict):
        return all(map(finite, x.values()))
    return all(map(finite, x)) if isinstance(x, list) else True


def encodable(s, charset):
    """Text with what the charset cannot represent left out."""
    return s.encode(charset, 'ignore').decode(charset)


def gen_body(g):
    case = {'status': g.choice([200, 200, 200, 404, 206, 304, 103, 500, 204]), 'method': g.choice(['GET', 'GET', 'POST', 'HEAD', None]),
            'on_request': g.bool(25), 'charset': g.choice(CHARSETS) if g.bool(92) else g.choice(BAD_CHARSETS),
            'codings': g.list(lambda: g.choice(['gzip', 'deflate', 'br', 'x-gzip', 'GZIP']), 0, 2) if g.bool(50) else [],
            'spoil': g.choice(['no'] * 8 + ['coding', 'undecodable', 'unknown coding', 'cut']),
            'te': g.choice([None, None, None, ['chunked'], ['gzip', 'chunked'], ['Chunked']]), 'json': None, 'bad_json': False}
    if g.bool(35):
        case['type'] = g.choice(JSON_TYPES)
        case['json'] = [a_value(g)]
        case['indent'] = g.choice([None, None, 0, 2, 4])
        case['ascii'] = g.bool()
        case['bad_json'] = g.bool(15)
        if g.bool(15):
            case['json'] = [[a_text(g)] * 3]
    else:
        case['type'] = g.choice(TYPES)
        case['text'] = a_text(g)
    case['ce_split'] = g.bool(20)
    return case


def encode(data, codings):
    for c in codings:
        c = c.lower()
        if c in ('gzip', 'x-gzip'):
            data = gzip.compress(data, mtime=0)
        elif c == 'deflate':
            data = zlib.compress(data)
        else:
            data = brotli.compress(data)
    return data


def check_body(case):
    charset = case['charset']
    if case['type'] is None:
        charset = None
    real = charset if charset not in BAD_CHARSETS else 'utf-8'
    full = case['on_request'] or (case['status'] not in (206, 304, 103, 204) and case['method'] != 'HEAD')
    if case['json'] is not None:
        text = json.dumps(case['json'][0], indent=case['indent'], ensure_ascii=case['ascii'])
        text = encodable(text, real or 'utf-8')
        # A number beyond the range of floating point is still a number.
        text = text.replace(repr(HUGE), '1E999')
        if case['bad_json']:
            text += ']'
        try:
            data = json.loads(text)
        except ValueError:
            data = None
            is_json = False
        else:
            # What cannot be written in JSON again is shown as it is.
            is_json = not case['bad_json'] and finite(data)
    else:
        text = encodable(case['text'], real or 'utf-8')
        is_json = False
    raw = text.encode(real or 'utf-8')
    plain_text = raw.decode(real or 'utf-8')
    if charset is None and raw[:3] == b'\xef\xbb\xbf':
        return False, ['BOM']
    codings = list(case['codings'])
    undecodable = False
    spoil = case['spoil']
    if spoil == 'undecodable':
        # An isolated lead byte.
        raw += b'\xff\xfe\xff'
        codec = codecs.lookup(real or 'utf-8')
        try:
            plain_text = raw.decode(codec.name)
            is_json = False
        except UnicodeError:
            undecodable = True
            is_json = False
    body = encode(raw, codings)
    decoded = True
    if spoil == 'unknown coding':
        codings.insert(len(codings) // 2, 'foo')
        # Once there is nothing left, there is nothing to decode.
        decoded = not raw and codings[0] == 'foo'
    elif spoil in ('coding', 'cut') and codings and len(body) > 4:
        body = body[:3] + b'\x00\x00' if spoil == 'coding' else body[:-2]
        decoded = False
    headers = []
    if case['te']:
        headers.append(('Transfer-Encoding', ', '.join(case['te']).encode()))
    if codings:
        if case['ce_split']:
            headers += [('Content-Encoding', c.encode()) for c in codings]
        else:
            headers.append(('Content-Encoding', ', '.join(codings).encode()))
    if case['type']:
        headers.append(('Content-Type', (case['type'] + (';charset=' + charset if charset else '')).encode()))
    req = resp = None
    if case['on_request']:
        req = {'scheme': 'http', 'method': case['method'] or 'PUT', 'target': '/', 'version': 'HTTP/1.1',
               'headers': [('Host', b'a')] + headers, 'body': body, 'trailers': None}
    else:
        if case['method']:
            req = {'scheme': 'http', 'method': case['method'], 'target': '/', 'version': 'HTTP/1.1', 'headers': [('Host', b'a')],
                   'body': b'', 'trailers': None}
        resp = {'version': 'HTTP/1.1', 'status': case['status'], 'reason': 'x', 'headers': headers, 'body': body, 'trailers': None}
    exchange = {'request': req, 'responses': [resp] if resp else []}
    exch = sut('constructing', wild.build, exchange)
    sut('check_exchange', httpolice.check_exchange, exch)
    displays = check_messages(exchange, htmltree.report([exch]))
    if body == b'':
        return False, ['empty']
    if decoded and (raw == b'' or raw in BOMS and plain_text == '' and not undecodable):
        # Encoded nothing; the payload is empty and not shown.
        require(not displays[-1].has_body, 'an empty payload is shown')
        return False, ['empty']
    d = displays[-1]
    require(d.has_body, 'the body is not shown')
    steps = ['removing Transfer-Encoding'] if case['te'] else []
    if decoded:
        steps += ['removing Content-Encoding'] if codings else []
        if charset in BAD_CHARSETS or undecodable:
            want = raw.decode('utf-8', 'replace')
        else:
            want = plain_text
            name = codecs.lookup(charset or 'utf-8').name
            if name != 'utf-8':
                steps.append('decoding from ' + name)
            if is_json and full and not (data is None and 'pretty-printing' not in (d.body_title or '')):
                # (`null` may be left as it is)
                want = json.dumps(data, indent=2, ensure_ascii=False)
                steps.append('pretty-printing')
    else:
        want = body.decode('utf-8', 'replace')
    if len(want) > 1000:
        want = want[:1000]
        steps.append('taking the first 1000 characters')
    if render.clean(want, False) != want:
        want = render.clean(want, False)
        steps.append('replacing non-printable characters with the \ufffd sign')
    if not steps:
        title = None
    elif len(steps) < 3:
        title = 'Body after ' + ' and '.join(steps)
    else:
        title = 'Body after ' + ', '.join(steps[:-1]) + ', and ' + steps[-1]
    same('the title of the body', title, d.body_title)
    same('the body', want, d.body)
    return bool(steps), steps + ['spoil: ' + spoil]


PARTS = [
    Part('fields', gen_fields, check_fields, 3500),
    Part('body', gen_body, check_body, 6000),
]
