"""Verdicts on a response by itself follow the protocol rules."""
from lib import proto, rules
from lib.core import Part

PID = 'C13'
TECHNIQUE = 'property-based testing of generated responses against a reference model of the response rules'
NOTE = 'a response and its header fields are generated together with their meaning; an independent model says which notices are due'
RULE = 'a case is non-trivial if the model says that at least one notice of this property is due'
ASSUMPTIONS = ['the snapshot of what is known about fields, methods and media types in lib/tables.json']

OWN = {1018, 1020, 1023, 1025, 1026, 1030, 1034, 1035, 1047, 1048, 1050, 1052, 1054, 1064, 1076, 1078, 1079, 1080, 1082, 1083, 1084, 1088, 1089,
       1094, 1110, 1111, 1112, 1113, 1167, 1189, 1190, 1191, 1192, 1197, 1198, 1205, 1217, 1227, 1228, 1233, 1240, 1243, 1244, 1245, 1246, 1258,
       1260, 1277, 1280, 1310}

REQUEST = [(10, 'Connection'), (5, 'Upgrade')]
WANTED = [(25, 'Location'), (18, 'Content-Type'), (8, 'Transfer-Encoding'), (16, 'Connection'), (12, 'Upgrade'), (10, 'Allow'), (8, 'Accept-Patch'),
          (8, 'Accept-Post'), (12, 'Link'), (10, 'Alt-Svc'), (8, 'Retry-After'), (8, 'Via'), (7, 'Trailer'), (7, 'Warning', proto.warnings([214, 214, 299, 199])),
          (8, 'Cache-Control', proto.cache_control(['no-transform', 'no-cache', 'max-age'])), (4, 'Last-Modified'), (4, 'ETag'), (4, 'Content-Language'),
          (4, 'Keep-Alive'), (6, 'Date')]
STATUSES = [100, 101, 102, 103, 200, 201, 203, 204, 205, 206, 300, 301, 302, 303, 304, 305, 307, 308, 400, 402, 405, 408, 413, 421, 429, 451, 500, 503]


def fragment(location):
    return location.split('#', 1)[1] if '#' in location else ''


def model(resp, req, v):
    s, version = resp.data['status'], resp.version
    location, allow = resp['Location'], resp['Allow']
    close = resp.has('Connection', 'close')
    nonempty = resp.body_known_nonempty
    rules.common(resp, req is not None and req.data['scheme'] == 'https', v)

    v(1167, not 100 <= s <= 599)
    if rules.close_delimited(resp, req):
        v(1025)
        v(1047, version == 'HTTP/1.1' and not close)
    for_requests = [n for n in resp.names if proto.info(n, 'for_response') is False]
    v(1064, n=rules.distinct(for_requests), about=for_requests)
    v(1048, s == 101 and resp['Upgrade'].absent)
    v(1246, s == 101 and version == 'HTTP/2')
    v(1240, s == 204 and nonempty)
    v(1076, s == 205 and nonempty)
    for code, notice in [(301, 1078), (302, 1079), (303, 1080), (307, 1084), (308, 1205)]:
        v(notice, s == code and location.absent)
    for code, notice in [(305, 1082), (306, 1083), (402, 1088)]:
        v(notice, s == code)
    v(1089, s == 405 and allow.absent)
    v(1094, s == 408 and not close)
    v(1110, 200 <= s <= 499 and resp['Date'].absent)
    v(1111, s == 201 and location.ok and fragment(location.val))
    if None in resp['Link'].items:          # an upper-case relation type breaks the grammar, but names the same relation
        v.skip(1243)
    v(1243, s == 451 and not any(resp['Link'].items))
    v(1258, version == 'HTTP/2' and resp['Alt-Svc'].present)
    v(1260, s == 421 and resp['Alt-Svc'].present)
    no_patch = [t for t in resp['Accept-Patch'].items if proto.TYPES.get(t.lower(), {}).get('patch') is False]
    v(1227, no_patch, about=no_patch)
    v(1190, s == 203)
    if resp.ignored:
        v.skip(1064, 1052)
    if s == 103:
        return
    interim = 100 <= s < 200
    v(1018, (interim or s == 204) and resp['Transfer-Encoding'].present)
    v(1023, (interim or s == 204) and resp['Content-Length'].present)
    v(1198, interim and close)
    if interim:
        pointless = [n for n in resp.names if proto.info(n, 'representation_metadata')]
        v(1052, n=rules.distinct(pointless), about=pointless)
    v(1112, location.present and not 300 <= s <= 399 and s != 201)
    v(1113, resp['Retry-After'].present and not 300 <= s <= 399 and s not in (413, 429, 503))
    if allow.present:
        v(1217, resp['Accept-Patch'].present and 'PATCH' not in allow.items)
        v(1310, resp['Accept-Post'].present and 'POST' not in allow.items)


def gen(g):
    req = proto.request(g, REQUEST, noisy=5) if g.bool(75) else None
    return {'request': req, 'responses': [proto.response(g, WANTED, STATUSES) for _ in range(g.weighted([(85, 1), (15, 2)]))]}


def check(case):
    return rules.judge(case, OWN, response=model)


PARTS = [Part('responses', gen, check, 20000)]
