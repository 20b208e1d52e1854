"""Exchanges of every kind: structured, odd and junk values for every part of a message.

A message case is plain data; ``build`` makes the real objects. The body is ``None`` (unknown),
``UNAVAILABLE`` (present but unavailable) or bytes.
"""
import base64
import gzip
import zlib

import httpolice
from lib import abnf, grammar as gr
from lib.strings import mutate

UNAVAILABLE = 'unavailable'

METHODS = ['GET', 'POST', 'HEAD', 'PUT', 'DELETE', 'OPTIONS', 'CONNECT', 'TRACE', 'PATCH', 'PROPFIND',
           'get', 'FOO', '', 'G T', 'ÿ', 'PRI', 'LOCK', 'BIND', '\u0416', 'POST\n', 'a' * 100]
TARGETS = ['/', '/a?b=c', '/?access_token=x', 'http://example.com/', 'https://example.com:443/x?y',
           '*', 'example.com:80', 'http://[::1]/', 'http://[1', '//a', '', 'a b', 'http://a:99999/',
           'foo:bar', 'http://:80', '/\u2028', '/' + 'a' * 200, 'http://a@b/', '/%zz', '/[', '/é',
           'http://[V1.a]/', 'HTTP://EXAMPLE.com', '/<script>', "/\"'&", '/\x00', '/\r\nfoo']
VERSIONS = ['HTTP/1.1', 'HTTP/1.0', 'HTTP/2', None, 'HTTP/3', 'HTTP/0.9', 'http/1.1', '', 'x<y>']
SCHEMES = ['http', 'https', None, '', 'foo', 'HTTP', '\u0416', 'ws', ':']
STATUSES = [200, 100, 101, 102, 103, 199, 201, 202, 203, 204, 205, 206, 226, 300, 301, 302, 303, 304,
            305, 306, 307, 308, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413,
            414, 415, 416, 417, 421, 426, 428, 429, 431, 451, 500, 501, 502, 503, 504, 505, 511, 599,
            0, 1, 99, 600, 999, 1000, -1, 10 ** 20]
REASONS = ['OK', None, '', 'Not Found', 'x\ny', '\u0416', '\x00', 'a' * 200, '<b>', 'é\x85', '\u2028']

_B64 = [b'a:b', b'', b':', b'a', b'a\x00:b', b'\xff:\xfe', 'é:ж'.encode(), b'a:b\x7f', b'\n:b']

# Values that reach deeper than those sampled from the grammars alone.
PICKS = {
    'Content-Type': [
        b'application/json', b'application/json; charset=utf-8', b'text/html; charset=base64',
        b'text/plain; charset=utf-16', b'text/plain; charset="utf-7"', b'application/xml',
        b'application/x-www-form-urlencoded', b'multipart/mixed; boundary=a', b'multipart/mixed',
        b'multipart/byteranges; boundary="a"', b'application/json-patch+json', b'image/svg+xml',
        b'application/problem+json', b'text/plain; charset=idna', b'text/x; charset="\x00"',
        b'text/x; charset=punycode', b'text/plain;charset=a;charset=b', b'application/merge-patch+json',
        b'text/x; charset=undefined', b'text/x; charset=unicode_escape', b'multipart/form-data;boundary=a',
        b'text/x; charset=raw_unicode_escape', b'text/x; charset=utf_8_sig', b'text/x; charset=mbcs',
        b'message/http', b'multipart/mixed; boundary*=x\'\'%', b'multipart/mixed; boundary="a\x80"',
        b'application/json; charset=utf-32', b'text/json', b'application/json; charset=cp500'],
    'Content-Encoding': [b'gzip', b'deflate', b'br', b'gzip, gzip', b'x-gzip', b'foo', b'identity',
                         b'gzip, foo', b'br, deflate', b','],
    'Transfer-Encoding': [b'chunked', b'gzip, chunked', b'chunked, chunked', b'gzip', b'foo',
                          b'chunked, gzip', b'chunked;a=b'],
    'Cache-Control': [b'max-age=0', b'no-store, max-age=60', b'no-cache="Set-Cookie"', b'private="a,b"',
                      b'max-age=x', b'max-age', b'public=1', b'immutable', b'only-if-cached',
                      b'stale-while-revalidate=60', b'no-cache, no-transform, no-store', b'max-stale',
                      b's-maxage=60, public', b'max-age=' + b'9' * 50, b'max-age=1, max-age=2',
                      b'must-revalidate=""', b'no-cache=","', b'private=\x80'],
    'Warning': [b'110 - "stale"', b'214 - "x"', b'299 a.com "x" "Sun, 06 Nov 1994 08:49:37 GMT"',
                b'113 - "heuristic"', b'000 - ""', b'110 - "a", 214 b "c"', b'999 [::1]:1 "\\""'],
    'Authorization': [b'Basic ' + base64.b64encode(x) for x in _B64] + [
        b'Basic', b'Basic a=b', b'Basic !', b'Basic YQ', b'Bearer x', b'Bearer', b'Bearer a=b', b'Digest',
        b'Basic =', b'Bearer =', b'foo', b'Basic ' + b'A' * 5],
    'WWW-Authenticate': [b'Basic', b'Basic realm="x"', b'Basic realm=x, charset=UTF-8', b'Bearer',
                         b'Basic realm="x", charset="y"', b'Bearer scope="a b", error=invalid_token',
                         b'Basic abc=', b'Bearer realm="a", realm="b"', b'Bearer error="\x80"',
                         b'Basic realm="a", foo=bar, baz=qux', b'Basic a, Bearer error=invalid_request'],
    'Prefer': [b'respond-async', b'return=minimal', b'return=x', b'wait=5, wait=6', b'wait', b'handling',
               b'return=representation; foo="b"', b'respond-async=1', b'foo; bar="; "', b'wait=a'],
    'Preference-Applied': [b'respond-async', b'return=minimal', b'foo=bar', b'wait="5"', b'RETURN=minimal'],
    'Link': [b'<>; rel', b'<a>; rel=next; rel=prev', b"<a>; title*=utf-8'en'%e2%82", b'<a>; rel="a b"',
             b'</a>; rel="blocked-by"', b"<a>; title*=foo''a", b'<a>; title=x; rel=y', b'<a>', b'<a>; hreflang',
             b"<a>;title*=utf-8'en'%ff;rel=a", b"<a>;title*=base64''a;rel=a", b'<http://[1>; rel=x'],
    'Alt-Svc': [b'h2=":443"; ma=60', b'clear', b'h2=":443"; persist=2', b'%xx=":1"', b'h2=""',
                b'h2=":443"; ma=1; ma=2', b'a%2=":1"', b'h2="a.com:1"; foo=bar, h3=":2"', b'%h2=":1"',
                b'w%3dx=":1"', b'h%32=":443"'],
    'Alt-Used': [b'a.com', b'a.com:80', b':80'],
    'Forwarded': [b'for=1.2.3.4', b'for=[::1]', b'for="[::1]:80"', b'by=_a;for=_b', b'for=a;for=b', b'for=',
                  b'for=1.2.3.4:5', b'host=a.com:80;proto=http', b'proto="x y"', b';', b'foo=bar'],
    'Strict-Transport-Security': [b'max-age=0', b'max-age=1; max-age=2', b'includeSubDomains',
                                  b'max-age=60; includeSubDomains=x', b'foo; max-age="60"', b'max-age'],
    'Content-Disposition': [b'attachment; filename="a"', b'attachment; filename=a; filename*=utf-8\'\'a',
                            b'attachment; filename="a%20b"', b'attachment; filename="\x80"', b'foo',
                            b"attachment; filename*=foo''a; filename=b", b'attachment; filename="a\\b"',
                            b"attachment; filename*=utf-8''%ff", b"attachment; filename*=idna''%ff"],
    'Content-Range': [b'bytes 0-4/5', b'bytes 4-0/5', b'bytes 0-5/5', b'bytes */5', b'bytes */*', b'foo 1',
                      b'bytes 0-0/*', b'bytes 99999999999999999999-1/2'],
    'Range': [b'bytes=0-4', b'bytes=4-0', b'bytes=-5', b'bytes=0-', b'foo=bar', b'bytes=0-1,2-1',
              b'bytes=-0', b'bytes=' + b'9' * 5000 + b'-'],
    'If-Range': [b'"a"', b'W/"a"', b'Sun, 06 Nov 1994 08:49:37 GMT'],
    'ETag': [b'"a"', b'W/"a"', b'""'],
    'If-None-Match': [b'*', b'"a"', b'W/"a", "b"'],
    'If-Match': [b'*', b'"a"', b'W/"a", "b"'],
    'Host': [b'example.com', b'', b'a:80', b'[::1]', b'[', b'a, b', b'example.com:443', b'\xff'],
    'Location': [b'/', b'http://example.com/#a', b'#x', b'', b'http://[', b'//[::1]/', b'a b', b'x:',
                 b'http://a:b/', b'/[', b'http://[V1.a]/'],
    'Content-Location': [b'/', b'http://example.com/', b'', b'a', b'http://[::1', b'//'],
    'Referer': [b'about:blank', b'http://a@b/', b'https://a:b@c/', b'http://[::1]/#', b'/', b'http://a/ b'],
    'Content-Length': [b'0', b'5', b'-1', b'5, 5', b'9' * 5000, b'00'],
    'Expect': [b'100-continue', b'foo'],
    'TE': [b'trailers', b'chunked', b'gzip;q=0.5, chunked', b''],
    'Connection': [b'close', b'upgrade', b'keep-alive, TE', b'Host', b'date', b'close, Foo', b'HTTP2-Settings'],
    'Upgrade': [b'h2c', b'h2', b'websocket', b'HTTP/2.0', b'TLS/1.0, foo/1', b'H2C'],
    'HTTP2-Settings': [b'AAMAAABkAARAAAAAAAIAAAAA', b'a=', b'AAAA', b'A', b'AA=='],
    'Vary': [b'*', b'Accept, host', b'Authorization', b'foo', b'Accept, Accept'],
    'Pragma': [b'no-cache', b'foo', b'foo="bar"'],
    'User-Agent': [b'curl', b'a/1 (b) c/d', b'a a', b'a (' + b'(' * 50, b'Mozilla/5.0 (' + b'(' * 3000 + b')' * 3001],
    'Via': [b'1.1 a', b'1.0 b, HTTP/1.1 c (d)', b'HTTP/1.1 [::1]:80', b'1.1 ' + b'a' * 300],
    'Trailer': [b'Foo', b'Content-Length', b'Age, foo'],
    'Allow': [b'', b'GET', b'GET, HEAD, foo', b'CONNECT'],
    'Age': [b'0', b'60', b'9' * 20, b'9' * 5000],
    'Retry-After': [b'60', b'Sun, 06 Nov 1994 08:49:37 GMT', b'9' * 5000],
    'Accept': [b'*/*', b'text/html;q=0.5;a=b', b'*/*;a;q=0', b'text/html;level=1;q=1;x', b'a/b;q="1"'],
    'HTTPolice-Silence': [b'1000', b'1000 resp, 1277', b'foo', b'1070, 1110 resp', b'9' * 5000, b'1'],
    'X-Content-Type-Options': [b'nosniff', b'NoSniff', b'foo'],
    'Max-Forwards': [b'1', b'9' * 5000],
}
for _name in ('Date', 'Expires', 'Last-Modified', 'If-Modified-Since', 'If-Unmodified-Since'):
    PICKS[_name] = [b'Sun, 06 Nov 1994 08:49:37 GMT', b'Sunday, 06-Nov-94 08:49:37 GMT',
                    b'Sun Nov  6 08:49:37 1994', b'Fri, 31 Dec 9999 23:59:59 GMT', b'0',
                    b'Sat, 01 Jan 0001 00:00:00 GMT', b'Mon, 00 Jan 0000 00:00:00 GMT',
                    b'Sat, 31 Feb 2015 08:49:37 GMT', b'Tue, 08 Nov 1994 23:59:60 GMT',
                    b'Mon, 07 Nov 1994 08:49:37 GMT', b'Thursday, 29-Feb-00 24:00:00 GMT',
                    b'Thu, 31 Dec 2037 00:00:00 GMT']
PICKS['Proxy-Authenticate'] = PICKS['WWW-Authenticate']
PICKS['Proxy-Authorization'] = PICKS['Authorization']

KNOWN = sorted(set(gr.HEADERS) | set(PICKS))
OTHER = ['X-Foo', 'Foo', 'X-Frame-Options', 'Cookie', 'Set-Cookie', 'Keep-Alive', 'Content-MD5', 'From',
         'Proxy-Connection', 'X-XSS-Protection', 'MIME-Version', 'Refresh', 'CDN-Loop', 'Status',
         'Content-Transfer-Encoding', 'DNT', 'Upgrade-Insecure-Requests', 'SourceMap', 'DASL', 'Early-Data']
ODD_NAMES = ['', ' ', 'a b', 'é', '\u0416', '\u212aeep-Alive', 'Foo:', '\x00', 'ETag ', '<b>', '"', 'X-\u2028',
             'x' * 300, ':status', 'HoSt', 'content-type', 'ETAG', '(', '\ud800']
ODD_VALUES = [b'', b' ', b'\x00', b'\xff\xfe', b'a\nb', b'a\r\nb: c', b'<script>alert(1)</script>', b'&amp;',
              b'"' * 10, b'(' * 100, b',' * 50, b';=', b'a' * 2000, b'%', b'\\', b'1' * 6000, b'"\\"',
              'ж', '\u2028', '\ud800', 'é', 'a\u0000', '\U0001f600']


def value(g, name):
    """A value for the named header (bytes, sometimes str)."""
    grammar = gr.HEADERS.get(name)
    k = g.int(0, 19)
    if k < 8 and name in PICKS:
        v = g.choice(PICKS[name])
    elif k < 17 and grammar is not None:
        v = abnf.sample(grammar, g, [40])
    elif k < 18:
        v = g.bytes(0, 12)
    elif k < 19:
        v = g.choice(ODD_VALUES)
    else:
        v = g.choice(PICKS[g.choice(sorted(PICKS))])
    if isinstance(v, bytes) and g.bool(20):
        v = mutate(g, v)
    if isinstance(v, bytes) and g.bool(5):
        v = v.decode('latin-1')
    return v


def name(g):
    k = g.int(0, 19)
    if k < 16:
        n = g.choice(KNOWN)
    elif k < 18:
        n = g.choice(OTHER)
    else:
        n = g.choice(ODD_NAMES)
    return n


def header(g):
    n = name(g)
    v = value(g, n)
    if g.bool(10):
        n = g.choice([n.lower(), n.upper(), n.swapcase()])
    return (n, v)


BODIES = [b'', b'{"a": 1}', b'{"a": 1', b'[' * 2000, b'1' * 6000, b'NaN', b'"\\ud800"', b'\xef\xbb\xbf{}',
          b'<a/>', b'<a>', b'<!DOCTYPE a [<!ENTITY b "c">]><a>&b;</a>',
          b'<?xml version="1.0" encoding="foo"?><a/>', b'<?xml version="1.0" encoding="utf-16"?><a/>',
          '<?xml version="1.0" encoding="utf-16"?><a/>'.encode('utf-16'), b'<a>&#0;</a>', b'\x00', b'a=b&c=%20',
          b'access_token=x', b'a b', b'\xff\xff', b'--a\r\n\r\nb\r\n--a--\r\n', b'--a\r\nContent-Type: x\r\n',
          b'--b--', b'a' * 1500, 'жжж'.encode(), b'\n\n', b'<script>', b']]>', b'&lt;', b'\r\n',
          b'<?xml version="1.0" encoding="utf-32"?><a/>', b'<a xmlns="b"/>' * 2, b'[1e999]', b'{"\\u0000": "\\u2028"}',
          b'<?xml version="1.0" standalone="x"?><a/>', b'--a\r\nContent-Type: text/html; charset=\xff\r\n\r\n--a--',
          b'--a\r\nContent-Range: bytes 0-1/2\r\n\r\nab\r\n--a--', b'--a', b'--\xff\xfe\r\n', b'-']


def body(g, headers):
    k = g.int(0, 9)
    if k == 0:
        return None
    if k == 1:
        return UNAVAILABLE
    if k <= 3:
        return b''
    b = g.choice(BODIES) if g.bool(85) else g.bytes(0, 40)
    ce = [v for n, v in headers if n.lower() == 'content-encoding']
    if ce and g.bool(70):
        last = ce[-1] if isinstance(ce[-1], bytes) else ce[-1].encode('latin-1', 'replace')
        for coding in last.lower().replace(b' ', b'').split(b','):
            if coding in (b'gzip', b'x-gzip'):
                b = gzip.compress(b, mtime=0)
            elif coding == b'deflate':
                b = zlib.compress(b)
            elif coding == b'br':
                import brotli
                b = brotli.compress(b)
        if g.bool(20):
            b = mutate(g, b)
        elif g.bool(10):
            b = b[:len(b) // 2]
    return b


def message(g, lo=0, hi=6):
    headers = g.list(lambda: header(g), lo, hi)
    if headers and g.bool(15):
        headers.append((g.choice(headers)[0], value(g, g.choice(headers)[0])))
    msg = {'headers': headers, 'body': body(g, headers), 'trailers': None}
    if g.bool(20):
        msg['trailers'] = g.list(lambda: header(g), 0, 2)
    if g.bool(5):
        msg['remark'] = g.choice(['remark', '<b>\x00', '\u2028\ud800', ''])
    return msg


def pick_or_text(g, pool, likely):
    """Mostly one of the first `likely` values."""
    k = g.int(0, 9)
    if k < 6:
        return pool[g.int(0, likely - 1)]
    if k < 9:
        return g.choice(pool)
    return g.text(0, 8)


def request(g):
    msg = message(g)
    msg['method'] = pick_or_text(g, METHODS, 10)
    k = g.int(0, 9)
    if k < 2:
        msg['target'] = abnf.sample(g.choice([gr.origin_form, gr.absolute_URI, gr.authority]), g).decode()
    else:
        msg['target'] = pick_or_text(g, TARGETS, 7)
    msg['version'] = pick_or_text(g, VERSIONS, 4)
    msg['scheme'] = pick_or_text(g, SCHEMES, 3)
    return msg


def response(g):
    msg = message(g)
    msg['status'] = STATUSES[g.int(0, len(STATUSES) - 1)] if g.bool(95) else g.int(-5, 10 ** 6)
    msg['reason'] = pick_or_text(g, REASONS, 4)
    msg['version'] = pick_or_text(g, VERSIONS, 4)
    return msg


def exchange(g, max_responses=2):
    k = g.int(0, 9)
    req = request(g) if k < 9 else None
    n = g.weighted([(70, 1), (15, 0), (15, 2)])
    resps = [response(g) for _ in range(min(n, max_responses))]
    if g.bool(3):
        resps = [response(g) for _ in range(3)]
    return {'request': req, 'responses': resps}


# ------------------------------------------------------------------ building

def build_body(b):
    if b == UNAVAILABLE and isinstance(b, str):
        from httpolice.structure import Unavailable
        return Unavailable()
    return b


def build_request(r):
    return httpolice.Request(r['scheme'], r['method'], r['target'], r['version'], list(r['headers']),
                             build_body(r['body']), r['trailers'], remark=r.get('remark'))


def build_response(r):
    return httpolice.Response(r['version'], r['status'], r['reason'], list(r['headers']),
                              build_body(r['body']), r['trailers'], remark=r.get('remark'))


def build(case):
    return httpolice.Exchange(build_request(case['request']) if case['request'] else None,
                              [build_response(r) for r in case['responses']])


def ids(exch):
    """Notice ids per message: (request, [responses], exchange)."""
    return ([n.id for n in exch.request.notices] if exch.request else None,
            [[n.id for n in r.notices] for r in exch.responses],
            [n.id for n in exch.notices])
