"""C27: HAR entries become the exchanges they describe."""
import base64
import json
import os
import tempfile

import httpolice
from httpolice import inputs
from lib import htmltree
from lib.core import Part, require, same, sut
from lib.wild import UNAVAILABLE

PID = 'C27'
TECHNIQUE = 'HAR documents rendered from random abstract entries; oracle: the abstract entries and a body model'
NOTE = 'Random sampling of documents with up to 3 entries, with the quirks of four known creators.'
RULE = ('HAR files written from abstract entries (methods, URL parts, headers, versions, body sizes, text, base64, creators); '
        'non-trivial when some entry has a response or a request body')
ASSUMPTIONS = ['URLs are valid and in lower-case scheme; OPTIONS is used only with a non-empty path',
               'text is shown verbatim (text/plain), or judged as JSON']

CREATORS = ['mitmproxy', 'WebInspector', 'Firefox', 'Fiddler', 'F12 Developer Tools', 'BrowserMob Proxy', 'fiddler', '']
UNTRUSTED = ('WebInspector', 'Firefox', 'F12 Developer Tools')
TEXTS = ['', 'hello', 'a=b', '{"a": 1}', '{"a": ', 'жук', 'Fiddler', 'x Fiddler y', ' ', 'a\n\tb', '<b>&', 'é', '1']
NAMES = ['Accept', 'X-Foo', ':method', 'User-Agent', ':authority', 'Foo', 'cookie', 'Content-Length', ':path', 'EndTime',
         'ClientToServerBytes', 'Content-Encoding', 'ServerToClientBytes']
VALUES = ['', 'x', '12', 'a, b', 'é', 'gzip', '"q"', '<b>']


def gen_headers(g):
    return g.list(lambda: [g.choice(NAMES), g.choice(VALUES)], 0, 4)


def gen_body(g):
    return g.choice([0, -1, 1, 12, 1000, -1, 0])


def gen_entry(g):
    e = {'method': g.choice(['GET', 'POST', 'CONNECT', 'PUT', 'OPTIONS', 'HEAD', 'get']),
         'scheme': g.choice(['http', 'https']),
         'host': g.choice(['example.com', 'example.com:8080', '[::1]:80', 'a', '[V1.a]']),
         'path': g.choice(['/', '/a', '/a;b', '/a;b/c;d', '/a/', '//a', '/%20', '/a:b', '/;', '']),
         'query': g.choice([None, '', 'a=b', 'a;b', 'a?b', 'a=%3B', '/', 'x&y']),
         'fragment': g.choice([None, None, None, 'frag']),
         'req_version': g.choice(['HTTP/1.1', 'HTTP/1.0', 'h2', '', 'unknown', 'HTTP/2.0', 'http/2.0', 'HTTP/2']),
         'req_headers': gen_headers(g), 'host_header': g.choice([None, 'Host', 'host', 'HOST']), 'host_empty': g.bool(8),
         'req_size': gen_body(g), 'post': g.choice([None, 'none', 'text']), 'post_text': g.choice(TEXTS),
         'post_type': g.choice([None, 'text/plain', 'application/json']),
         'status': g.choice([200, 0, 304, 404, 500, 204, 201, 302, 206]),
         'reason': g.choice(['OK', '', 'Not Found', 'é', 'x y']),
         'resp_version': g.choice(['HTTP/1.1', 'HTTP/1.0', 'h2', '', 'unknown', 'HTTP/2.0']),
         'resp_headers': gen_headers(g), 'resp_size': gen_body(g), 'size': gen_body(g),
         'text': g.choice([None] + TEXTS), 'encoding': g.choice([None, None, 'base64', 'BASE64', 'foo', '', 'bad base64']),
         'resp_type': g.choice([None, 'text/plain', 'application/json', 'application/xml'])}
    if e['method'] == 'OPTIONS':
        e['path'] = e['path'] or '/'
    return e


def gen_fiddler(g):
    """A tunnel as Fiddler records it, more or less."""
    e = gen_entry(g)
    e['method'] = g.weighted([(6, 'CONNECT'), (1, 'GET')])
    e['status'] = g.choice([200, 200, 201, 206, 404, 502, 302, 503])
    e['post'], e['post_text'] = 'text', g.choice(TEXTS)
    e['text'], e['encoding'] = g.choice(['Fiddler', 'x Fiddler y', 'x', 'fiddler']), g.choice(['base64', 'BASE64', None])
    e['resp_size'], e['size'] = g.choice([-1, 12]), g.choice([-1, 12])
    e['resp_headers'] = [[n, g.choice(VALUES)] for n in
                         g.sample(['EndTime', 'ClientToServerBytes', 'ServerToClientBytes', 'X-Foo'], g.int(1, 4))]
    return e


def gen(g):
    if g.bool(12):
        return {'creator': g.weighted([(5, 'Fiddler'), (1, 'fiddler')]),
                'entries': g.list(lambda: gen_fiddler(g), 1, 2), 'bom': g.bool(20), 'ascii': g.bool(),
                'indent': g.choice([None, 2]), 'extra': g.bool(30)}
    return {'creator': g.choice(CREATORS), 'entries': g.list(lambda: gen_entry(g), 1, 3),
            'bom': g.bool(20), 'ascii': g.bool(), 'indent': g.choice([None, 2]), 'extra': g.bool(30)}


def url_of(e):
    u = '%s://%s%s' % (e['scheme'], e['host'], e['path'])
    if e['query'] is not None:
        u += '?' + e['query']
    if e['fragment'] is not None:
        u += '#' + e['fragment']
    return u


def req_headers(e):
    r = [list(h) for h in e['req_headers']]
    if e['host_header']:
        r.insert(len(r) // 2, [e['host_header'], '' if e['host_empty'] else e['host']])
    if e['post_type']:
        r.append(['Content-Type', e['post_type']])
    return r


def resp_headers(e):
    r = [list(h) for h in e['resp_headers']]
    if e['resp_type']:
        r.append(['content-type', e['resp_type']])
    return r


def to_har(case):
    entries = []
    for e in case['entries']:
        req = {'method': e['method'], 'url': url_of(e), 'httpVersion': e['req_version'], 'cookies': [],
               'headers': [{'name': n, 'value': v} for n, v in req_headers(e)], 'queryString': [],
               'headersSize': -1, 'bodySize': e['req_size']}
        if e['post'] == 'none':
            req['postData'] = {'mimeType': 'x', 'params': []}
        elif e['post'] == 'text':
            req['postData'] = {'mimeType': 'x', 'text': e['post_text']}
        content = {'size': e['size'], 'mimeType': e['resp_type'] or ''}
        if e['text'] is not None:
            t = e['text']
            if e['encoding'] in ('base64', 'BASE64'):
                t = base64.b64encode(t.encode()).decode()
            elif e['encoding'] == 'bad base64':
                t = base64.b64encode(t.encode()).decode().rstrip('=') + 'A====A'[:1 + len(t) % 2] + 'é'
            content['text'] = t
        if e['encoding'] is not None:
            content['encoding'] = 'base64' if e['encoding'] == 'bad base64' else e['encoding']
        resp = {'status': e['status'], 'statusText': e['reason'], 'httpVersion': e['resp_version'], 'cookies': [],
                'headers': [{'name': n, 'value': v} for n, v in resp_headers(e)], 'content': content,
                'redirectURL': '', 'headersSize': -1, 'bodySize': e['resp_size']}
        entry = {'startedDateTime': '2018-01-01T00:00:00Z', 'time': 1, 'request': req, 'response': resp,
                 'cache': {}, 'timings': {}}
        if case['extra']:
            entry['_foo'] = {'bar': [None, 1.5]}
            req['comment'] = resp['_x'] = 'foo'
        entries.append(entry)
    doc = {'log': {'version': '1.2', 'creator': {'name': case['creator'], 'version': '1'}, 'entries': entries}}
    data = json.dumps(doc, ensure_ascii=case['ascii'], indent=case['indent']).encode()
    return b'\xef\xbb\xbf' + data if case['bom'] else data


def version_of(case, v):
    return v if v.startswith('HTTP/') and case['creator'] not in UNTRUSTED else None


def plain(entries):
    return [(n.lower(), v.encode('latin-1')) for n, v in entries if not n.startswith(':')]


def body_state(b):
    if b is None or isinstance(b, bytes):
        return b
    return UNAVAILABLE


def actual_headers(msg):
    return [(str(n).lower(), v) for n, v in msg.header_entries]


def pretty(ctype, text, judge):
    """What the preview shows of a text."""
    if judge and ctype == 'application/json':
        try:
            return json.dumps(json.loads(text), indent=2, ensure_ascii=False)
        except ValueError:
            pass
    return text


def judged_json(ctype, text):
    if ctype != 'application/json' or text is None:
        return False
    try:
        json.loads(text)
    except ValueError:
        return True
    return False


def check_preview(what, section, body, text, ctype, judge):
    d = htmltree.Display(section.display)
    if text is not None:
        require(d.body is not None, '%s: recorded text %r is not shown', what, text)
        same(what + ': text in the preview', pretty(ctype, text, judge), d.body)
    elif body == b'':
        require(not d.has_body, '%s: an empty body is shown', what)
    elif body is None:
        same(what + ': body in the preview', 'Body is unknown', d.body_title)
    else:
        same(what + ': body in the preview', 'Body is present, but not available for inspection', d.body_title)
    ids = [n.id for n in section.notices]
    if text is None and body == b'':
        text = ''                       # known to be empty, hence judged as such
    same(what + ': text judged as bad JSON', judge and judged_json(ctype, text), 1038 in ids)
    for bad in (1036, 1037, 1039, 1139, 1040):
        if text is None or bad in (1036, 1037):
            require(bad not in ids, '%s: no. %d is about bytes that are not in the file', what, bad)


def check(case):
    with tempfile.TemporaryDirectory(prefix='c27-') as d:
        path = os.path.join(d, 'a.har')
        with open(path, 'wb') as f:
            f.write(to_har(case))
        exchanges = sut('reading the HAR file', lambda: list(inputs.formats['har']([path])))
    same('number of exchanges', len(case['entries']), len(exchanges))
    for i, (e, exch) in enumerate(zip(case['entries'], exchanges)):
        what = 'entry %d (%s %s, %s)' % (i, e['method'], url_of(e), case['creator'])
        req = exch.request
        fiddler_connect = case['creator'] == 'Fiddler' and e['method'] == 'CONNECT'
        same(what + ': method', e['method'], req.method)
        same(what + ': scheme', e['scheme'], req.scheme)
        if e['method'] == 'CONNECT':
            target = e['host']
        elif e['host_header']:
            target = (e['path'] or '/') + ('?' + e['query'] if e['query'] is not None else '')
        else:
            target = url_of(e)
        same(what + ': target', target, req.target)
        same(what + ': request version', version_of(case, e['req_version']), req.version)
        same(what + ': request headers', plain(req_headers(e)), actual_headers(req))
        body = b'' if e['req_size'] == 0 else UNAVAILABLE if e['req_size'] > 0 else None
        text = e['post_text'] if e['post'] == 'text' and e['post_text'] else None
        if text is not None and fiddler_connect and 'Fiddler' in text:
            body, text = b'', None
        same(what + ': request body', body, body_state(req.body))
        views = [('request', body, text, e['post_type'], True)]
        if e['status'] == 0:
            same(what + ': responses', [], exch.responses)
        else:
            same(what + ': number of responses', 1, len(exch.responses))
            [resp] = exch.responses
            same(what + ': status', e['status'], int(resp.status))
            same(what + ': reason', e['reason'], resp.reason)
            same(what + ': response version', version_of(case, e['resp_version']), resp.version)
            hdrs = resp_headers(e)
            tunnel = fiddler_connect and 200 <= e['status'] <= 299
            if tunnel:
                hdrs = [h for h in hdrs if h[0] not in ('EndTime', 'ClientToServerBytes', 'ServerToClientBytes')]
            same(what + ': response headers', plain(hdrs), actual_headers(resp))
            if e['resp_size'] == 0 or e['size'] == 0 or e['status'] == 304:
                body = b''
            elif case['creator'] == 'Firefox':
                body = None
            elif e['resp_size'] > 0 or e['size'] > 0:
                body = UNAVAILABLE
            else:
                body = None
            text = None
            if e['text'] and e['status'] != 304:
                if e['encoding'] in (None, 'base64', 'BASE64'):
                    text = e['text']
                if e['encoding'] in ('base64', 'BASE64') and tunnel and 'Fiddler' in text:
                    body, text = b'', None
            same(what + ': response body', body, body_state(resp.body))
            full = e['status'] not in (204, 206, 304) and e['method'] != 'HEAD'
            views.append(('response', body, text, e['resp_type'], full))
        sut('check_exchange', httpolice.check_exchange, exch)
        [block] = htmltree.report([exch]).blocks
        same(what + ': messages in the report', len(views), len(block.sections))
        for section, (kind, body, text, ctype, judge) in zip(block.sections, views):
            check_preview('%s: %s' % (what, kind), section, body, text, ctype, judge)
    return any(e['status'] or e['req_size'] for e in case['entries']), [
        'creator ' + case['creator'], '%d entries' % len(case['entries'])]


PARTS = [Part('har', gen, check, 3000)]
