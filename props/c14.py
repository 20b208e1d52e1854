"""Verdicts on a response in the context of its request follow the rules."""
from lib import proto, rules
from lib.core import Part

PID = 'C14'
TECHNIQUE = 'property-based testing of generated request/response pairs against a reference model of the rules that relate the two'
NOTE = 'requests and responses are generated together with the meaning of their fields; an independent model (with its own URI resolution) says which notices are due'
RULE = 'a case is non-trivial if the model says that at least one notice of this property is due'
ASSUMPTIONS = ['the snapshot of what is known about fields, methods and media types in lib/tables.json']

OWN = {1019, 1024, 1033, 1041, 1046, 1049, 1051, 1055, 1060, 1071, 1072, 1073, 1074, 1077, 1081, 1085, 1086, 1087, 1090, 1092, 1095, 1096, 1097,
       1098, 1099, 1100, 1101, 1102, 1103, 1104, 1105, 1106, 1114, 1115, 1117, 1199, 1201, 1203, 1204, 1214, 1215, 1216, 1221, 1232, 1236, 1237,
       1239, 1242, 1284, 1286, 1291, 1304, 1305, 1306}
ONLY_REQUEST = {1236}
ONLY_RESPONSE = OWN - {1236}

REQUEST = [(12, 'Upgrade'), (10, 'HTTP2-Settings'), (25, 'Prefer', proto.prefer(4)), (10, 'Accept'), (14, 'Accept-Language'), (4, 'Accept-Charset'), (8, 'Expect'),
           (8, 'Content-Length'), (20, 'Content-Type'), (10, 'If-Range'), (6, 'Range'), (4, 'Connection')]
RESPONSE = [(30, 'Location'), (25, 'Content-Location'), (20, 'Content-Type'), (6, 'Transfer-Encoding'), (10, 'Connection'), (15, 'Upgrade'), (20, 'Allow'), (8, 'Accept-Patch'),
            (6, 'Strict-Transport-Security'), (20, 'Preference-Applied', proto.preference_applied(4)), (16, 'Vary'), (15, 'Via'), (9, 'Warning', proto.warnings([214, 214, 299]))]
STATUSES = [100, 101, 101, 102, 103, 200, 200, 200, 201, 201, 202, 203, 204, 205, 206, 300, 301, 302, 303, 307, 308, 405, 406, 406, 409, 411, 413, 415, 417, 426, 426, 428, 429,
            451, 400, 404, 500, 503, 505, 511]
METHODS = ['GET', 'GET', 'GET', 'HEAD', 'POST', 'POST', 'PUT', 'DELETE', 'OPTIONS', 'CONNECT', 'TRACE', 'PATCH', 'PATCH']

EXPLAIN = {202: 1284, 300: 1077, 303: 1081, 406: 1092, 409: 1096, 428: 1201, 429: 1203, 451: 1242, 505: 1106, 511: 1204}


def explanation(s):
    if s in EXPLAIN:
        return EXPLAIN[s]
    return 1087 if 400 <= s <= 499 else 1104 if 500 <= s <= 599 else None


def conneg(req):
    return {n.lower() for n in req.names if proto.info(n, 'proactive_conneg') and req[n].present}


def to_proxy(req):
    if req.version in ('HTTP/1.0', 'HTTP/1.1'):
        return req.data['form'] == 'absolute'
    return None


def request_model(req, v):
    v(1236, to_proxy(req) and req.answered)


def model(resp, req, v):
    s = resp.data['status']
    final = [i for i, b in enumerate(resp.before) if not 100 <= b <= 199]
    v(1304, bool(final), about=[(str(s), str(resp.before[i])) for i in final[:1]])
    moved = rules.transformed(resp, v) and s != 103
    v(1046, moved and resp['Via'].absent)
    if req is None:
        return
    method, version = req.data['method'], req.version
    successful, redirection, interim = 200 <= s <= 299, 300 <= s <= 399, 100 <= s <= 199
    nonempty, empty = resp.body_known_nonempty, resp.body_known_empty
    close = resp.has('Connection', 'close')
    safe = proto.method_info(method, 'safe') is True
    ct = req['Content-Type']

    v(1305, s == 101 and req['Expect'].ok and 100 not in resp.before)
    v(1041, nonempty and resp['Content-Type'].absent and not (s == 206 and req['If-Range'].present))
    tunnel = method == 'CONNECT' and successful
    v(1019, tunnel and resp['Transfer-Encoding'].present)
    v(1024, tunnel and resp['Content-Length'].present)
    v(1199, tunnel and close)
    v(1239, method == 'HEAD' and nonempty)
    v(1306, version == 'HTTP/1.0' and resp['Transfer-Encoding'].present)
    host = req['Host']
    v(1033, version == 'HTTP/1.1' and (not host.ok or host.n > 1) and (successful or redirection))
    v(1237, moved and to_proxy(req) is False)
    v(1046, to_proxy(req) and successful and resp['Via'].absent)

    wanted = req['Upgrade'].items
    settings = req['HTTP2-Settings']
    for p in resp['Upgrade'].items:
        if s == 101:
            v(1049, p not in wanted)
            v(1232, p in wanted and p[0] == 'h2c' and (not settings.ok or settings.n > 1))
    shared = [p for p in resp['Upgrade'].items if p in wanted]
    v(1102, shared and s == 426, about=[p[0] for p in shared[:1]])
    v(1103, shared and successful, about=[p[0] for p in shared[:1]])
    if resp['Upgrade'].bad:
        v.skip(1101)
    v(1101, s == 426 and not resp['Upgrade'].items)
    v(1051, s == 101 and version == 'HTTP/1.0')
    v(1071, interim and s != 101 and version == 'HTTP/1.0')

    uri = rules.effective_uri(req)
    if uri is not None and resp['Content-Location'].ok:
        same = rules.same_uri(uri, resp['Content-Location'].val)
        if same is None:
            v.skip(1055, 1060)
        v(1055, same and method in ('GET', 'HEAD') and s in (200, 203, 204, 206, 304))
        v(1060, same and method == 'DELETE' and successful)
    if uri is not None and resp['Location'].ok and req.data['scheme'] is not None:
        same = rules.same_uri(uri, resp['Location'].val)
        if same is None:
            v.skip(1085)
        v(1085, same and (s in (300, 307, 308) or (s in (301, 302, 303) and method != 'POST')))

    v(1072, safe and s == 201)
    v(1074, safe and s == 202)
    v(1095, safe and s == 409)
    v(1073, s == 201 and method == 'POST' and resp['Location'].absent)
    if method != 'HEAD' and empty and explanation(s):
        v(explanation(s))
    v(1086, method == 'OPTIONS' and req.data['form'] == 'asterisk' and s in (300, 301, 302, 307, 308))
    v(1090, s == 406 and not conneg(req))
    v(1117, s == 406 and conneg(req) == {'accept-language'})
    v(1097, s == 411 and req['Content-Length'].ok)
    v(1098, s == 413 and req.body_known_empty)
    v(1099, s == 415 and req.body_known_empty and ct.absent)
    v(1100, s == 417 and req['Expect'].absent)
    v(1105, s == 505 and version is not None and version == resp.version)
    allow = resp['Allow']
    v(1114, s == 405 and method in allow.items)
    v(1115, successful and allow.present and method not in allow.items)
    v(1214, method == 'PATCH' and successful and ct.ok and proto.TYPES.get(ct.val[0], {}).get('patch') is False)
    v(1215, method == 'PATCH' and s == 415 and resp['Accept-Patch'].absent)
    v(1221, resp['Strict-Transport-Security'].present and req.data['scheme'] == 'http')

    asked = [(n, value or None) for n, value in req['Prefer'].items]
    applied = [(n, value or None) for n, value in resp['Preference-Applied'].items]
    loose = lambda n, x: (n, (x or '').lower())
    if any(a not in asked and loose(*a) in [loose(*b) for b in asked] for a in applied):
        v.skip(1286)        # differs only in case or in having an argument (empty or not allowed)
    unasked = [a for a in applied if a not in asked]
    v(1286, unasked, about=[n if x is None else '%s=%s' % (n, x) for n, x in unasked])
    if s == 103:
        return
    v(1216, method == 'OPTIONS' and 'PATCH' in allow.items and resp['Accept-Patch'].absent)
    vary = resp['Vary']
    if vary.bad or vary.spoiled:
        v.skip(1291)
    v(1291, resp['Preference-Applied'].present and method == 'GET' and vary.star is None and not resp.has('Vary', 'Prefer'))


def gen(g):
    req = proto.request(g, REQUEST, METHODS, noisy=10) if g.bool(96) else None
    resps = [proto.response(g, RESPONSE, STATUSES, noisy=10) for _ in range(g.weighted([(85, 1), (12, 2), (3, 3)]))]
    if req and g.bool(40):
        for r in resps:
            r['version'] = req['version']
            if g.bool(8):
                r['status'] = 505
    return {'request': req, 'responses': resps}


def gen_uri(g):
    """Redirections and the like, close to the target."""
    req = proto.request(g, [], ['GET', 'GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'DELETE', 'OPTIONS', 'CONNECT'], noisy=0, bad=1)
    req['headers'] = [h for h in req['headers'] if g.bool(70) or h[0].lower() == 'host']
    full = rules.effective_uri(proto.Msg(req))
    pool = [x for x in proto.LOCATIONS if '#' not in x]
    if full and req['form'] in ('origin', 'absolute'):
        path = full.split('://')[1].partition('/')
        path = '/' + path[2]
        close = [full, full, path, full.split(':', 1)[1], path[path.rindex('/') + 1:], './' + path[path.rindex('/') + 1:], full + 'x',
                 'https' + full[full.index(':'):], path.split('?')[0]]
        if path.startswith('//'):
            close = [full, full + 'x']
        pool = pool + close * 4
    elif full:
        pool = pool + [full, full, full.split(':', 1)[1], full + '/'] * 6
    resp = proto.response(g, [(70, 'Location', proto.strings(*pool)), (50, 'Content-Location', proto.strings(*pool))], [200, 200, 203, 204, 206, 304, 300, 301, 302, 303, 307, 308, 201, 404, 409], noisy=0, bad=1)
    return {'request': req, 'responses': [resp]}


def gen_upgrade(g):
    req = proto.request(g, [(85, 'Upgrade'), (60, 'HTTP2-Settings'), (30, 'Connection'), (20, 'Expect')], ['GET', 'OPTIONS', 'POST'], noisy=0)
    resps = [proto.response(g, [(85, 'Upgrade'), (20, 'Connection')], [101, 101, 101, 200, 426, 426, 404, 100], noisy=0) for _ in range(g.weighted([(75, 1), (25, 2)]))]
    return {'request': req, 'responses': resps}


def gen_prefer(g):
    req = proto.request(g, [(85, 'Prefer', proto.prefer(25))], ['GET', 'GET', 'POST', 'PATCH'], noisy=0)
    resp = proto.response(g, [(90, 'Preference-Applied', proto.preference_applied(25)), (40, 'Vary')], [200, 200, 103, 404, 202], noisy=0)
    return {'request': req, 'responses': [resp]}


def gen_method(g):
    """Methods that change what a response may be like."""
    req = proto.request(g, [(20, 'Content-Type'), (20, 'Accept-Language'), (10, 'Accept')], ['CONNECT', 'CONNECT', 'HEAD', 'OPTIONS', 'PATCH'], noisy=3)
    resp = proto.response(g, [(30, 'Transfer-Encoding'), (30, 'Content-Length'), (40, 'Connection'), (50, 'Allow'), (25, 'Accept-Patch'), (40, 'Location')],
                          [200, 200, 201, 204, 226, 299, 101, 300, 301, 302, 303, 307, 308, 405, 406, 415, 503], noisy=3)
    return {'request': req, 'responses': [resp]}


def gen_blame(g):
    """Statuses that blame a field of the request, which may be malformed."""
    bad = g.choice([3, 25, 50])
    req = proto.request(g, [(45, 'Content-Type'), (35, 'Expect'), (30, 'Content-Length'), (20, 'Accept-Language'), (15, 'Accept'), (15, 'Accept-Charset'),
                            (10, 'Accept-Encoding'), (15, 'Upgrade')], ['GET', 'POST', 'PUT', 'PATCH', 'DELETE', 'OPTIONS'], empty=75, noisy=3, bad=bad)
    resp = proto.response(g, [(30, 'Accept-Patch'), (30, 'Upgrade'), (40, 'Allow'), (20, 'Content-Type')],
                          [405, 406, 409, 411, 413, 415, 415, 417, 426, 428, 200], noisy=0, bad=bad // 3)
    return {'request': req, 'responses': [resp]}


def check(case):
    def request(req, v):
        req.answered = bool(case['responses'])
        request_model(req, v)
    return rules.judge(case, ONLY_REQUEST, ONLY_RESPONSE, request, model)


PARTS = [Part('pairs', gen, check, 16000), Part('methods', gen_method, check, 4000), Part('uris', gen_uri, check, 5000), Part('upgrade', gen_upgrade, check, 4000), Part('prefer', gen_prefer, check, 5000),
         Part('blame', gen_blame, check, 4000)]
