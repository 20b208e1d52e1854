"""C28: integration helpers translate header lists faithfully."""
import httpolice
from httpolice.helpers import headers_from_cgi, pop_pseudo_headers
from lib.core import Part, require, same, sut

PID = 'C28'
TECHNIQUE = 'random header lists and CGI environments against a reference model'
NOTE = 'Random sampling of lists of up to 8 entries and environments of up to 10 variables.'
RULE = ('random header lists with interleaved and repeated pseudo-headers, random CGI environments; non-trivial when '
        'there is at least one pseudo-header and one ordinary header, or at least two header variables')
ASSUMPTIONS = ['CGI names are ASCII and values are strings within ISO-8859-1, byte strings or positive integers',
               'letter case of names made from CGI variables is not compared']

NAMES = [':method', ':path', ':status', ':authority', ':scheme', 'Host', 'accept', 'X-Foo', ':', '::a', 'a:', ' :b',
         'Set-Cookie', ':Path', 'host:', '']
VALUES = ['', 'GET', '/', 'é', b'', b'x', b'\xff', ':v', '200']


def gen_pseudo(g):
    return {'entries': g.list(lambda: (g.choice(NAMES), g.choice(VALUES)), 0, 8),
            'lists': g.bool(20)}


def check_pseudo(case):
    entries = [list(e) if case['lists'] else e for e in case['entries']]
    before = list(entries)
    r = sut('pop_pseudo_headers', pop_pseudo_headers, entries)
    same('removed pseudo-headers of %r' % before, {n: v for n, v in case['entries'] if n[:1] == ':'}, dict(r))
    same('remaining entries of %r' % before, [e for e in before if e[0][:1] != ':'], entries)
    require(all(a is b for a, b in zip(entries, [e for e in before if e[0][:1] != ':'])),
            'entries were replaced')
    n = len(before) - len(entries)
    return bool(n and entries), ['%d pseudo' % n]


CGI = ['HTTP_HOST', 'CONTENT_LENGTH', 'CONTENT_TYPE', 'HTTP_ACCEPT', 'HTTP_X_FOO_BAR', 'HTTP_DNT', 'REQUEST_METHOD',
       'SERVER_PROTOCOL', 'HTTP_CONTENT_TYPE', 'HTTP_CONTENT_LENGTH', 'HTTPS', 'HTTP', 'REMOTE_ADDR', 'CONTENT_MD5',
       'wsgi.input', 'HTTP_USER_AGENT', 'X_HTTP_FOO', 'HTTP_HTTP_FOO', 'HTTP_A1B', 'http_accept', 'CONTENT_TYPES',
       'HTTP_HOST_X', 'HTTP_X__Y', 'PATH_INFO', 'QUERY_STRING', 'HTTP_ETAG', 'HTTP_WWW_AUTHENTICATE']
CGI_VALUES = ['', 'a.com', '0', '12', 'text/html', 'é', b'', b'x', 5, ' ', 'HTTP_ACCEPT', b'\x80']


def gen_cgi(g):
    names = g.sample(CGI, g.int(0, 10))
    return {'vars': [(n, g.choice(CGI_VALUES)) for n in names]}


def to_bytes(v):
    return v if isinstance(v, bytes) else str(v).encode('latin-1')


def check_cgi(case):
    environ = dict(case['vars'])
    before = dict(environ)
    entries = sut('headers_from_cgi', headers_from_cgi, environ)
    same('the environment afterwards', before, environ)
    expected = []
    for n, v in case['vars']:
        if n.startswith('HTTP_'):
            expected.append((n[5:].replace('_', '-').lower(), to_bytes(v)))
        elif n in ('CONTENT_LENGTH', 'CONTENT_TYPE') and to_bytes(v):
            expected.append((n.replace('_', '-').lower(), to_bytes(v)))
    actual = [(str(n).lower(), v) for n, v in entries]
    same('headers from %r' % before, sorted(expected), sorted(actual))
    if 'HTTP_HOST' in environ:
        same('the first header from %r' % before, 'host', actual[0][0])
    for n, v in entries:
        require(isinstance(n, str), 'header name %r is not a string', n)
    # They are suitable for Request.
    req = sut('Request', httpolice.Request, 'http', 'GET', '/', 'HTTP/1.1', entries, b'')
    exch = httpolice.Exchange(req, [])
    sut('check_exchange', httpolice.check_exchange, exch)
    require(not [n for n in exch.request.notices if n.id == 1032], 'no. 1032 for %r', entries)
    return len(expected) > 1, ['%d headers' % len(expected)]


PARTS = [
    Part('pseudo', gen_pseudo, check_pseudo, 6000),
    Part('cgi', gen_cgi, check_cgi, 6000),
]
