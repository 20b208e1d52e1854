"""C09: content and transfer codings are undone exactly, or the failure is flagged."""
import os
import struct
import tempfile
import zlib

import brotli
import httpolice
from httpolice import inputs
from lib import htmltree, render, wild
from lib.core import Part, require, same, sut
from lib.wild import UNAVAILABLE

PID = 'C09'
TECHNIQUE = ('metamorphic relation over generated payloads and coding chains: encoded with every encoder setting, corrupted at every '
             'layer; oracles: the same exchange with the plain payload or an unavailable one, and a member-by-member reference decoder')
NOTE = ('Random sampling, chains of up to 4 codings. Bytes following a complete deflate or brotli stream are not generated, as no '
        'verdict on them is promised; corruption of brotli is cutting it short or random bytes only, as it has no checksum.')
RULE = ('payload x media type x status x method x coding chain x encoder settings, intact, or with one layer cut short, altered or '
        'foreign, or with an unsupported coding in the chain, or as HTTP/1.x transfer codings; non-trivial when something is encoded')

GZIP, DEFLATE, BR = 'gzip', 'deflate', 'br'
PAYLOADS = [
    ('application/json', b'{"a": [1, 2, 3]}'), ('application/json', b'{"a": '), ('application/json', b'nope'),
    ('application/problem+json', b'[]'), ('application/json', '{"é": 1}'.encode('utf-16')), ('text/plain', b'hello\n' * 30),
    ('application/json; charset=iso-8859-1', b'"\xe9"'), ('application/xml', b'<a><b/></a>'), ('application/xml', b'<a><b></a>'),
    ('image/svg+xml', b'<!DOCTYPE a [<!ENTITY b "c">]><a>&b;</a>'), ('application/x-www-form-urlencoded', b'a=b&c=d+e'),
    ('application/x-www-form-urlencoded', b'a=b c'), ('multipart/mixed; boundary=a', b'--a\r\n\r\nb\r\n--a--\r\n'),
    ('multipart/mixed; boundary=a', b'--b\r\n\r\nb\r\n--b--\r\n'), ('multipart/mixed', b'--a\r\n\r\n--a--\r\n'),
    ('text/plain; charset=utf-8', 'жжж\u2028\x00'.encode()), ('image/png', bytes(range(256))), (None, b'\x00'),
    ('application/octet-stream', b'\x1f\x8b\x08'), ('text/html', b'<p>' * 600), ('application/json', b'{}' + b' ' * 5000),
    ('application/x-www-form-urlencoded', b'access_token=abc'), ('text/plain', b'x')]


# ------------------------------------------------------------------ encoders

def gen_settings(g):
    return {'level': g.choice([6, 0, 1, 9]), 'strategy': g.int(0, 4), 'wbits': g.choice([15, 9, 12]), 'mem': g.choice([8, 1, 9]),
            'flush': g.choice([None, None, zlib.Z_FULL_FLUSH, zlib.Z_SYNC_FLUSH]), 'pieces': g.int(1, 3),
            'members': g.weighted([(6, 1), (3, 2), (1, 3)]), 'empty': g.choice([None, None, None, 'first', 'last']),
            'flags': g.int(0, 31) if g.bool(30) else 0, 'mtime': g.choice([0, 1, 2 ** 32 - 1]), 'os': g.choice([255, 3, 0]),
            'name': g.choice([b'', b'a.txt', b'\xe9']), 'extra': g.choice([b'', b'ab\x02\x00\x00\x00']),
            'pad': g.choice([0, 0, 0, 0, 1, 511]), 'between': g.bool(8),
            'quality': g.choice([11, 0, 1, 5]), 'lgwin': g.choice([22, 10, 24]), 'mode': g.int(0, 2)}


def cut(data, n):
    k = max(1, -(-len(data) // n)) if data else 1
    return [data[i:i + k] for i in range(0, len(data), k)] or [b'']


def deflated(data, s, wbits):
    c = zlib.compressobj(s['level'], zlib.DEFLATED, wbits, s['mem'], s['strategy'])
    out = b''
    for piece in cut(data, s['pieces']):
        out += c.compress(piece)
        if s['flush'] is not None:
            out += c.flush(s['flush'])
    return out + c.flush()


def gzip_member(data, s):
    flags = s['flags']
    head = b'\x1f\x8b\x08' + bytes([flags]) + struct.pack('<I', s['mtime']) + b'\x02' + bytes([s['os']])
    if flags & 4:
        head += struct.pack('<H', len(s['extra'])) + s['extra']
    if flags & 8:
        head += s['name'] + b'\x00'
    if flags & 16:
        head += b'comment\x00'
    if flags & 2:
        head += struct.pack('<H', zlib.crc32(head) & 0xffff)
    return head + deflated(data, s, -s['wbits']) + struct.pack('<II', zlib.crc32(data), len(data) & 0xffffffff)


def encode(data, coding, s):
    coding = coding.lower()
    if coding == BR:
        return brotli.compress(data, mode=s['mode'], quality=s['quality'], lgwin=s['lgwin'])
    if coding == DEFLATE:
        return deflated(data, s, s['wbits'])
    parts = cut(data, s['members'])
    if s['empty'] == 'first':
        parts.insert(0, b'')
    elif s['empty'] == 'last':
        parts.append(b'')
    pad = b'\x00' * s['pad']
    return (pad if s['between'] else b'').join(gzip_member(p, s) for p in parts) + pad


# ------------------------------------------------------------------ reference decoders (None: undecodable)

def inflate(data, wbits):
    """(data, rest) of a raw deflate stream, or None."""
    d = zlib.decompressobj(-wbits)
    try:
        r = d.decompress(data)
    except zlib.error:
        return None
    return (r, d.unused_data) if d.eof else None


def ref_gzip(data):
    out = b''
    while data:
        if data[:3] != b'\x1f\x8b\x08' or len(data) < 10 or data[3] & 0xe0:
            return None
        flags, i = data[3], 10
        if flags & 4:
            if len(data) < i + 2:
                return None
            i += 2 + struct.unpack('<H', data[i:i + 2])[0]
        for bit in (8, 16):
            if flags & bit:
                i = data.find(b'\x00', i) + 1
                if i == 0:
                    return None
        if flags & 2:
            if struct.pack('<H', zlib.crc32(data[:i]) & 0xffff) != data[i:i + 2]:
                return None
            i += 2
        if i > len(data):
            return None
        r = inflate(data[i:], 15)
        if r is None or r[1][:8] != struct.pack('<II', zlib.crc32(r[0]), len(r[0]) & 0xffffffff):
            return None
        out += r[0]
        data = r[1][8:].lstrip(b'\x00')
    return out


def ref_deflate(data):
    """Same for zlib; (data, rest)."""
    if len(data) < 6 or data[0] & 15 != 8 or data[0] >> 4 > 7 or (data[0] * 256 + data[1]) % 31 or data[1] & 32:
        return None
    r = inflate(data[2:], max(9, (data[0] >> 4) + 8))
    if r is None or r[1][:4] != struct.pack('>I', zlib.adler32(r[0])):
        return None
    return r[0], r[1][4:]


# ------------------------------------------------------------------ content codings

NAMES = [GZIP, DEFLATE, BR, 'x-gzip', 'GZIP', 'X-Gzip', 'Deflate', 'BR']
UNSUPPORTED = ['foo', 'compress', 'x-compress', 'zstd', 'exi', 'gzip2', 'x-deflate', 'aes128gcm', 'Brotli', 'gz', 'x_gzip']


def gen_place(g):
    """The exchange around the payload."""
    ctype, data = g.choice(PAYLOADS) if g.bool(80) else (g.choice(PAYLOADS)[0], g.bytes(0, 60))
    if g.bool(6):
        data = b''
    if g.bool(8):
        data = (data * g.choice([50, 200, 200, 40000]))[:1500000]
    return {'type': ctype, 'data': data, 'on_request': g.bool(30), 'method': g.choice(['GET', 'POST', 'PUT', 'HEAD', 'PATCH', None]),
            'status': g.choice([200, 200, 200, 206, 304, 404, 400, 415, 201]), 'version': g.choice(['HTTP/1.1', 'HTTP/1.1', 'HTTP/2', None]),
            'split': g.int(0, 4), 'ct_first': g.bool()}


def exchange(case, codings, body):
    """The exchange as a wild case; what is in `codings` is announced, `body` is the body."""
    fields = [('Content-Type', case['type'].encode())] if case['type'] else []
    ce = []
    if codings:
        style = case['split']
        if style == 1:
            ce = [('content-encoding', c.encode()) for c in codings]
        elif style == 2:
            ce = [('Content-Encoding', b',, ' + ' ,\t'.join(codings).encode() + b',')]
        elif style == 3 and len(codings) > 1:
            ce = [('Content-Encoding', ','.join(codings[:1]).encode()), ('CONTENT-ENCODING', ', '.join(codings[1:]).encode())]
        else:
            ce = [('Content-Encoding', ', '.join(codings).encode())]
    fields = fields + ce if case['ct_first'] else ce + fields
    msg = {'version': case['version'], 'headers': [('Host', b'example.com')] if case['on_request'] else [('Vary', b'*')],
           'body': body, 'trailers': None}
    msg['headers'] = msg['headers'] + fields
    if case['on_request']:
        msg.update(scheme='http', method=case['method'] or 'POST', target='/')
        return {'request': msg, 'responses': []}
    msg.update(status=case['status'], reason='x')
    req = None
    if case['method']:
        req = {'scheme': 'http', 'version': case['version'], 'method': case['method'], 'target': '/',
               'headers': [('Host', b'example.com')], 'body': b'', 'trailers': None}
    return {'request': req, 'responses': [msg]}


def examine(case, codings, body):
    """(ids of both messages without 1036, 1037 and those about the fields themselves, titles of these, Display of the message)"""
    exch = sut('constructing', wild.build, exchange(case, codings, body))
    sut('check_exchange', httpolice.check_exchange, exch)
    [block] = htmltree.report([exch]).blocks
    found, titles = [], []
    for sec in block.sections:
        found.append(sorted(n.id for n in sec.notices if n.id not in (1036, 1037, 1127, 1151)))
        titles += [(n.id, n.title) for n in sec.notices if n.id in (1036, 1037)]
    return found, titles, htmltree.Display(block.sections[-1].display)


def steps(d):
    t = d.body_title or ''
    t = t[len('Body after '):] if t.startswith('Body after ') else t
    return [x for x in t.replace(', and ', ', ').replace(' and ', ', ').split(', ') if x]


def gen_chain(g):
    case = gen_place(g)
    case['chain'] = [(g.choice(NAMES), gen_settings(g)) for _ in range(g.weighted([(5, 1), (3, 2), (2, 3), (1, 4)]))]
    return case


def encode_all(data, chain):
    for c, s in chain:
        data = encode(data, c, s)
    return data


def check_chain(case):
    data = case['data']
    codings = [c for c, _ in case['chain']]
    found, titles, d = examine(case, codings, encode_all(data, case['chain']))
    same('complaints about the codings', [], titles)
    if not data:
        require(not d.has_body, 'an empty payload is shown')
        return False, ['empty']
    want, _, plain = examine(case, [], data)
    same('notices (as if the payload was not encoded)', want, found)
    same('the payload as displayed', plain.body, d.body)
    same('the transformations', ['removing Content-Encoding'] + steps(plain), steps(d))
    return True, ['%d codings' % len(codings)] + sorted({c.lower() for c in codings}) + \
        [n for n in ('members', 'flags', 'pad') if any(s[n] > (n == 'members') and c.lower().endswith('gzip') for c, s in case['chain'])] + \
        ['with notices: %s' % bool(set(sum(want, [])) & {1038, 1039, 1040, 1139, 1140, 1275, 1281})]


# ------------------------------------------------------------------ failures

def gen_corrupt(g):
    case = gen_chain(g)
    case['layer'] = g.int(0, len(case['chain']) - 1)
    case['how'] = g.choice(['cut', 'cut', 'flip', 'flip', 'tail', 'head', 'foreign', 'junk after', 'raw'])
    case['where'] = g.int(0, 999)
    case['bit'] = g.int(0, 7)
    return case


def corrupt(data, coding, how, where, bit):
    """A spoiled version of encoded data, or None; also what it decodes to (None: nothing)."""
    n = len(data)
    i = where * n // 1000
    if how == 'cut':
        bad = data[:max(1, i)]
    elif how == 'flip':
        bad = data[:i] + bytes([data[i] ^ (1 << bit)]) + data[i + 1:]
    elif how == 'tail':
        i = n - 1 - where % min(8, n)
        bad = data[:i] + bytes([data[i] ^ (1 << bit)]) + data[i + 1:]
    elif how == 'head':
        i = where % min(4, n)
        bad = data[:i] + bytes([data[i] ^ (1 << bit)]) + data[i + 1:]
    elif how == 'junk after':
        bad = data + bytes([1 + where % 255])
    else:
        bad = b'x' + data[:i]
    if bad == data or not bad:
        return None, None
    if coding == BR:
        if how not in ('cut', 'foreign'):
            return None, None
        if how == 'foreign':
            # Not every string of bytes is invalid.
            bad = b'\xff\xff\xff' + data
        return bad, None
    if coding == DEFLATE:
        r = ref_deflate(bad)
        if r is not None:
            return (None, None) if r[1] else (bad, r[0])
        if how == 'junk after':
            return None, None
        return bad, None
    return bad, ref_gzip(bad)


def check_corrupt(case):
    data, k, chain = case['data'], case['layer'], case['chain']
    codings = [c for c, _ in chain]
    inner = encode_all(data, chain[:k])
    coding, settings = chain[k]
    if case['how'] == 'raw':
        # Deflate without its wrapper is a common mistake.
        if coding.lower() == BR:
            return False, ['skipped']
        bad, decoded = deflated(inner, settings, -15), None
        if ref_gzip(bad) is not None or ref_deflate(bad) is not None:
            return False, ['skipped']
    else:
        bad, decoded = corrupt(encode(inner, coding, settings), coding.lower(), case['how'], case['where'], case['bit'])
    if bad is None or decoded == b'':
        return False, ['skipped']
    body = encode_all(bad, chain[k + 1:])
    found, titles, d = examine(case, codings, body)
    if decoded is not None:
        if decoded != inner:
            return False, ['skipped']
        # Harmless.
        same('complaints about the codings', [], titles)
        if data:
            same('notices (as if the payload was not encoded)', examine(case, [], data)[0], found)
        return True, ['harmless']
    same('complaints about the codings', [(1037, 'Could not decode Content-Encoding: %s' % coding)],
         [(i, t[:len(t) - len(t.lstrip())] + t.strip()) for i, t in titles])
    unavailable(case, codings, found, d, body)
    return True, [case['how'], coding.lower(), 'layer %d of %d' % (len(chain) - k, len(chain))]


def unavailable(case, codings, found, d, body):
    want, titles, _ = examine(case, codings, UNAVAILABLE)
    same('complaints about codings of an unavailable body', [], titles)
    same('notices (as if the body was not available)', want, found)
    require(d.has_body and d.body is not None, 'the body is not shown')
    text = render.clean(body.decode('utf-8', 'replace')[:1000], False)
    same('the body as displayed', text, d.body)
    require('removing Content-Encoding' not in steps(d), 'coding announced as removed')


def gen_unsupported(g):
    case = gen_place(g)
    case['chain'] = [(g.choice(NAMES), gen_settings(g)) for _ in range(g.int(0, 3))]
    case['layer'] = g.int(0, len(case['chain']))
    case['coding'] = g.choice(UNSUPPORTED)
    case['more'] = g.bool(20)
    return case


def check_unsupported(case):
    chain, k = case['chain'], case['layer']
    codings = [c for c, _ in chain]
    codings.insert(k, case['coding'])
    if case['more']:
        codings.insert(0, 'bar')
    body = encode_all(case['data'], chain)
    if not body or (k == 0 and not case['data']):
        return False, ['empty']
    if not encode_all(case['data'], chain[:k]):
        return False, ['empty']
    found, titles, d = examine(case, codings, body)
    same('complaints about the codings', [(1036, 'Not decoding Content-Encoding: %s' % case['coding'])], titles)
    unavailable(case, codings, found, d, body)
    return True, ['layer %d of %d' % (len(chain) - k, len(chain))]


# ------------------------------------------------------------------ transfer codings

TE_NAMES = [GZIP, 'x-gzip', DEFLATE, 'GZIP', 'X-GZip', 'DEFLATE']
TE_BAD = ['foo', 'compress', 'br', 'x-compress', 'zstd']


def gen_te(g):
    case = gen_place(g)
    case.update(chain=[(g.choice(TE_NAMES), gen_settings(g)) for _ in range(g.weighted([(5, 1), (3, 2), (1, 3)]))],
                ce=[(g.choice(NAMES[:4]), gen_settings(g))] if g.bool(25) else [],
                chunked=g.bool(60), cuts=g.list(lambda: g.choice([1, 2, 10, 100]), 0, 4), how=g.choice(['no'] * 4 + [
                    'cut', 'flip', 'tail', 'head', 'foreign', 'unsupported', 'chunked inside', 'junk after']),
                where=g.int(0, 999), bit=g.int(0, 7), layer=g.int(0, 2), bad=g.choice(TE_BAD))
    case['layer'] = min(case['layer'], len(case['chain']) - 1)
    if case['on_request']:
        case['chunked'] = True
    return case


FRAMING = (1002, 1003, 1004, 1005, 1027)


def read_stream(case, te, ce, body):
    """ids, titles of coding complaints, body"""
    lines = [b'Content-Type: ' + case['type'].encode()] if case['type'] else []
    if ce:
        lines.append(b'Content-Encoding: ' + ', '.join(c for c, _ in ce).encode())
    if case['split'] == 1:
        lines += [b'Transfer-Encoding: ' + c.encode() for c in te]
    elif te:
        lines.append(b'Transfer-Encoding: ' + (b',' if case['split'] == 2 else b', ').join(c.encode() for c in te))
    method = (case['method'] or 'POST').encode()
    if not case['on_request'] and method == b'HEAD':
        method = b'GET'
    status = 200 if case['status'] == 304 else case['status']
    if case['on_request']:
        lines.insert(0, method + b' / HTTP/1.1\r\nHost: example.com')
        streams = [(b'\r\n'.join(lines) + b'\r\n\r\n' + body), b'']
    else:
        lines.insert(0, b'HTTP/1.1 %d x' % status)
        streams = [method + b' / HTTP/1.1\r\nHost: example.com\r\n' + (b'Content-Length: 0\r\n' if method != b'GET' else b'') + b'\r\n',
                   b'\r\n'.join(lines) + b'\r\n\r\n' + body]
    with tempfile.TemporaryDirectory(prefix='c09-') as tmp:
        path = os.path.join(tmp, 'x')
        with open(path, 'wb') as f:
            f.write(streams[0] if case['on_request'] else b'======== BEGIN INBOUND STREAM ========\r\n' + streams[0] +
                    b'======== BEGIN OUTBOUND STREAM ========\r\n' + streams[1])
        exchs = sut('reading', lambda: list(inputs.formats['req-stream' if case['on_request'] else 'combined']([path])))
    require(len(exchs) == 1 and exchs[0].request is not None, 'one exchange expected, found %r', exchs)
    sut('check_exchange', httpolice.check_exchange, exchs[0])
    [block] = htmltree.report(exchs).blocks
    sec = block.sections[0 if case['on_request'] else 1]
    msg = exchs[0].request if case['on_request'] else exchs[0].responses[0]
    b = msg.body
    return (sorted(n.id for n in sec.notices if n.id not in FRAMING), [(n.id, n.title) for n in sec.notices if n.id in FRAMING],
            b if b is None or isinstance(b, bytes) else UNAVAILABLE)


def chunk(data, cuts):
    out, i, cuts = b'', 0, list(cuts)
    while i < len(data):
        n = cuts.pop(0) if cuts else len(data)
        out += b'%x\r\n' % len(data[i:i + n]) + data[i:i + n] + b'\r\n'
        i += n
    return out + b'0\r\n\r\n'


def check_te(case):
    chain, how, k = case['chain'], case['how'], case['layer']
    plain = encode_all(case['data'], case['ce'])
    if not plain:
        return False, ['empty']
    names = [c for c, _ in chain]
    inner = encode_all(plain, chain[:k])
    coding, settings = chain[k]
    data = encode(inner, coding, settings)
    want_titles, lost = [], True
    if how == 'no':
        lost = False
    elif how == 'unsupported':
        names.insert(k + 1, case['bad'])
        want_titles = [(1003, 'Not decoding Transfer-Encoding: ' + case['bad'])]
    elif how == 'chunked inside':
        if not case['chunked']:
            return False, ['skipped']
        names.insert(k + 1, 'chunked')
        data = chunk(data, case['cuts'])
        want_titles = [(1002, None)]
    else:
        bad, decoded = corrupt(data, coding.lower(), how, case['where'], case['bit'])
        if bad is None or decoded is not None and decoded != inner:
            return False, ['skipped']
        data = bad
        lost = decoded is None
        if lost:
            want_titles = [(1027, 'Could not decode Transfer-Encoding: ' + coding)]
    data = encode_all(data, chain[k + 1:])
    te = names + (['chunked'] if case['chunked'] else [])
    if case['chunked']:
        data = chunk(data, case['cuts'])
    found, titles, body = read_stream(case, te, case['ce'], data)
    same('complaints about the codings', want_titles, [(i, t if i != 1002 else None) for i, t in titles])
    if lost:
        same('the body', UNAVAILABLE, body)
        bad = set(found) & {1036, 1037, 1038, 1039, 1040, 1139, 1140, 1275, 1281, 1082, 1205, 1206}
        require(not bad, 'notices %r about a body that is not available', bad)
    else:
        same('the body', plain, body)
        # The same without a transfer coding (other than chunked).
        same('notices', read_stream(case, ['chunked'] if case['chunked'] else [], case['ce'],
                                    chunk(plain, []) if case['chunked'] else plain)[0], found)
    return True, [how, '%d codings' % len(chain), 'chunked' if case['chunked'] else 'until close'] + ['ce'] * bool(case['ce'])


PARTS = [
    Part('chain', gen_chain, check_chain, 3500),
    Part('corrupt', gen_corrupt, check_corrupt, 4000),
    Part('unsupported', gen_unsupported, check_unsupported, 1500),
    Part('transfer', gen_te, check_te, 4500),
]
