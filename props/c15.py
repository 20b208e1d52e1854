"""Caching verdicts follow from Age, dates, Cache-Control and warnings."""
from lib import proto, rules
from lib.core import Part
from lib.rules import UNKNOWN, cc, cc_argument

PID = 'C15'
TECHNIQUE = 'property-based testing of generated exchanges against a reference model of the caching rules'
NOTE = ('Age, dates, Cache-Control, Pragma, Warning and Vary are generated together with their meaning; an independent model of freshness, staleness and '
        'directives says which notices are due')
RULE = 'a case is non-trivial if the model says that at least one notice of this property is due'
ASSUMPTIONS = ['the snapshot of what is known about directives, methods and status codes in lib/tables.json',
               'directives with an argument of 0 are left out of the judgement of contradictions (1193, 1238)',
               'whether private with a list of fields contradicts public is left open']

REQ_OWN = {1152, 1154, 1155, 1156, 1157, 1158, 1159, 1160, 1161, 1163, 1164, 1165, 1171, 1193}
RESP_OWN = {1153, 1154, 1155, 1156, 1157, 1158, 1160, 1162, 1163, 1164, 1166, 1168, 1169, 1170, 1172, 1173, 1174, 1175, 1176, 1177, 1178, 1179, 1180,
            1181, 1182, 1183, 1184, 1185, 1186, 1187, 1188, 1193, 1202, 1235, 1238, 1241, 1283, 1301, 1302, 1303}
OWN = REQ_OWN | RESP_OWN
# Fields whose arguments are judged by C18.
ARGUMENTS_ELSEWHERE = ('Prefer', 'Preference-Applied', 'Strict-Transport-Security', 'Alt-Svc', 'Forwarded', 'Link')
COUNTED = {1152, 1153, 1154, 1155, 1156, 1157, 1163, 1165}

ENOUGH = 4 * 10 ** 9            # a date that will not come soon


def future(g):
    t = ENOUGH + g.choice([0, 60, 86400])
    return proto.write_date(t), t


def future_or_not(g):
    return future(g) if g.bool(12) else proto.date(g)


def directives(msg, v, for_what, wrong):
    lines = [(raw, items) for raw, items in msg['Cache-Control'].lines if isinstance(items, list)]
    everything = [(raw, d) for raw, items in lines for d in items]
    known = [(raw, d, proto.TABLES['directives'].get(d[0])) for raw, d in everything]
    known = [(raw, d, rec) for raw, d, rec in known if rec is not None]

    def blame(i, chosen):
        v(i, n=len(chosen), about=[('Cache-Control', c[1]) for c in chosen])

    blame(wrong, {(None, d[0]) for _, d, rec in known if rec[for_what] is False})
    blame(1154, {(None, d[0]) for _, d, rec in known if d[1] is not None and rec['form'] == 'quoted_string' and not d[2]})
    blame(1155, {(None, d[0]) for _, d, rec in known if d[1] is not None and rec['form'] == 'token' and d[2]})
    blame(1156, {(raw, d[0]) for raw, d, rec in known if d[1] is None and rec['argument'] == 'required'})
    blame(1157, {(raw, d[0]) for raw, d, rec in known if d[1] is not None and rec['argument'] == 'no'})
    blame(1158, {(raw, d[0], d[1]) for raw, d, rec in known if d[1] is not None and rec['argument'] != 'no' and cc_argument(d[0], d[1]) == UNKNOWN})
    if any(msg[n].present for n in ARGUMENTS_ELSEWHERE):
        v.skip(1156, 1157, 1158)


def pair(msg, v, notice, first, second, bare=False):
    a, b = cc(msg, first), cc(msg, second)
    if a is None or b is None:
        return
    if UNKNOWN in (a, b) or any(x == 0 and x is not False for x in (a, b)):
        v.skip(notice)
    lists = [x for x in (a, b) if isinstance(x, list)]
    if bare:
        # no-cache and private with a list of fields only concern those fields (RFC 7234 sections 5.2.2.2 and 5.2.2.6).
        if any(lists):
            return
    elif [] in lists or (lists and 'public' in (first, second)):
        v.skip(notice)
    v(notice, about=(first, second))


def any_message(msg, v):
    v(1160, any(n != 'no-cache' for n, _ in msg['Pragma'].items), about=[n for n, _ in msg['Pragma'].items if n != 'no-cache'])
    codes = {c for c, _ in msg['Warning'].items}
    bad = ['%03d' % c for c in codes if not 100 <= c <= 299]
    v(1163, n=len(bad), about=bad)
    date = msg['Date']
    different = ['%03d' % c for c, t in msg['Warning'].items if date.ok and t is not None and t != date.val]
    v(1164, different, about=different)


def no_cache_pragma(msg):
    return any(n == 'no-cache' for n, _ in msg['Pragma'].items)


def request_model(req, v):
    method = req.data['method']
    any_message(req, v)
    directives(req, v, 'for_request', 1152)
    names = [d[0] for d in req['Cache-Control'].items]
    v(1159, any(d[0] == 'no-cache' and d[1] is not None for d in req['Cache-Control'].items))
    no_cache = cc(req, 'no-cache')
    if no_cache not in (None, True):
        v.skip(1161, 1193)
    v(1161, no_cache and not no_cache_pragma(req))
    codes = {str(c) for c, _ in req['Warning'].items if 100 <= c <= 199}
    v(1165, n=len(codes), about=codes)
    v(1171, proto.method_info(method, 'cacheable') is False
      and {'max-age', 'max-stale', 'min-fresh', 'no-cache', 'no-store', 'only-if-cached'} & set(names),
      about={'max-age', 'max-stale', 'min-fresh', 'no-cache', 'no-store', 'only-if-cached'} & set(names))
    for first, second in [('max-stale', 'min-fresh'), ('stale-if-error', 'min-fresh'), ('max-stale', 'no-cache'), ('max-age', 'no-cache')]:
        pair(req, v, 1193, first, second)


def greater(a, b):
    """Both known, and a > b."""
    return all(isinstance(x, int) and x is not True for x in (a, b)) and a > b


def model(resp, req, v):
    s = resp.data['status']
    any_message(resp, v)
    directives(resp, v, 'for_response', 1153)
    v(1162, no_cache_pragma(resp))
    for first, second in [('public', 'no-store'), ('private', 'public'), ('private', 'no-store'), ('must-revalidate', 'stale-while-revalidate'),
                          ('must-revalidate', 'stale-if-error')]:
        pair(resp, v, 1193, first, second)
    for first, second in [('max-age', 'no-cache'), ('max-age', 'no-store'), ('s-maxage', 'private'), ('s-maxage', 'no-cache'), ('s-maxage', 'no-store')]:
        pair(resp, v, 1238, first, second, bare=True)
    if resp['Vary'].spoiled:
        v.skip(1235)
    v(1235, resp.has('Vary', 'Host'))

    method = req.data['method'] if req else None
    no_store = cc(resp, 'no-store')
    if no_store == UNKNOWN:
        v.skip(1176, 1283)
    if req:
        v(1283, s == 421 and proto.method_info(method, 'cacheable') is True and not no_store)
    if s == 103:
        return

    age = resp['Age'].val if resp['Age'].ok else None
    date = resp['Date'].val if resp['Date'].ok else None
    expires = resp['Expires'].val if resp['Expires'].ok else None
    codes = [c for c, _ in resp['Warning'].items]
    control = resp['Cache-Control']
    max_age = cc(resp, 'max-age')
    explicit = max_age is not None

    # Whether it comes from a cache.
    cached = False
    if age is not None and date is not None and date + age > ENOUGH // 2:
        v(1241)
    elif resp['Age'].present:
        cached = True
        v(1168)
    elif any(100 <= c <= 199 for c in codes):
        cached = True
        v(1169, about=['%03d' % c for c in codes if 100 <= c <= 199])
    if cached:
        v(1166, resp['Age'].absent)
        no_cache = cc(resp, 'no-cache')
        if no_cache == UNKNOWN:
            v.skip(1175)
        v(1175, no_cache is True or no_cache == [])
        v(1176, no_store)
        default = proto.STATUSES.get(str(s))
        v(1202, default == 'not_at_all')
        v(1177, default == 'not_by_default' and resp['Expires'].absent and control.absent)
        # Whether its expiration had to be guessed.
        guessed = False
        if 113 in codes:
            guessed = True
            v(1179)
            v(1181, resp['Expires'].present)
            v(1182, resp['Expires'].absent and explicit)
        elif resp['Expires'].absent and control.absent:
            guessed = True
            v(1178)
        v(1180, guessed and greater(age, 86400) and 113 not in codes)
        if req:
            v(1172, proto.method_info(method, 'cacheable') is False)
            v(1170, greater(age, cc(req, 'max-age')), about=(str(age), str(cc(req, 'max-age'))))
            asked = cc(req, 'no-cache')
            if asked not in (None, True):
                v.skip(1173)
            v(1173, asked)
            v(1174, req['Cache-Control'].absent and no_cache_pragma(req))

    # Whether it is stale.
    stale = False
    if 110 in codes or 111 in codes:
        stale = True
        v(1183, about=[str(c) for c in codes if c in (110, 111)])
    elif cc(resp, 's-maxage') is None:
        if explicit:
            if greater(age, max_age):
                stale = True
                v(1184)
        elif expires is not None and date is not None and greater(age, expires - date):
            stale = True
            v(1185)
    if stale:
        v(1186, 110 not in codes)
        must = cc(resp, 'must-revalidate')
        if must == UNKNOWN:
            v.skip(1187)
        v(1187, must)
        if req:
            allowed = [cc(req, 'max-stale'), cc(req, 'stale-if-error'), cc(resp, 'stale-if-error'), cc(resp, 'stale-while-revalidate')]
            v(1188, 111 not in codes and 112 not in codes and all(a is None for a in allowed))

    immutable = cc(resp, 'immutable')
    if immutable == UNKNOWN or (immutable and (max_age == UNKNOWN or resp['Expires'].bad or (resp['Expires'].ok and date is None))):
        v.skip(1301)
    if immutable == UNKNOWN:
        v.skip(1302, 1303)
    if immutable:
        v(1301, not max_age and (resp['Expires'].absent or (expires is not None and date is not None and expires <= date)))
        v(1302, req and req.data['scheme'] == 'http')
        v(1303, rules.close_delimited(resp, req))


REQUEST_DIRECTIVES = ['max-age', 'max-stale', 'min-fresh', 'no-cache', 'no-cache', 'no-store', 'stale-if-error', 'only-if-cached', 'no-transform']
RESPONSE_DIRECTIVES = ['max-age', 'max-age', 's-maxage', 'no-cache', 'no-store', 'private', 'public', 'must-revalidate', 'proxy-revalidate', 'immutable',
                       'stale-while-revalidate', 'stale-if-error', 'no-transform']

REQUEST = [(45, 'Cache-Control', proto.cache_control(REQUEST_DIRECTIVES, 96)), (20, 'Pragma'), (6, 'Warning'), (6, 'Date')]
RESPONSE = [(60, 'Cache-Control', proto.cache_control(RESPONSE_DIRECTIVES, 96)), (10, 'Pragma'), (30, 'Warning'), (85, 'Date', future_or_not), (45, 'Age'), (35, 'Expires', future_or_not),
            (15, 'Vary', proto.starred(['Host', 'Host', 'Accept', 'Cookie']))]
STATUSES = [200, 200, 200, 200, 201, 203, 204, 206, 302, 301, 304, 404, 421, 428, 429, 511, 500, 503, 103, 207]
METHODS = ['GET', 'GET', 'GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'OPTIONS', 'PATCH', 'PROPFIND']


def gen(g):
    req = proto.request(g, REQUEST, METHODS, noisy=10) if g.bool(92) else None
    return {'request': req, 'responses': [proto.response(g, RESPONSE, STATUSES, noisy=10)] if g.bool(93) else []}


def gen_directives(g):
    """Wild Cache-Control fields."""
    any_ = proto.cache_control(proto.DIRECTIVES, 50, 1, 4)
    req = proto.request(g, [(60, 'Cache-Control', any_)], METHODS, noisy=0, repeat=25)
    return {'request': req, 'responses': [proto.response(g, [(85, 'Cache-Control', any_)], STATUSES, noisy=0, repeat=25)] if g.bool(80) else []}


def gen_immutable(g):
    names = ['immutable', 'immutable', 'max-age', 'public']
    req = proto.request(g, [], METHODS, noisy=0)
    resp = proto.response(g, [(100, 'Cache-Control', proto.cache_control(names, 97)), (35, 'Expires', proto.date), (60, 'Date'), (30, 'Transfer-Encoding'), (15, 'Connection')],
                          STATUSES, noisy=0)
    return {'request': req, 'responses': [resp]}


def gen_stale(g):
    """Around the moment of expiration."""
    t = proto.T0 + 3650 * 86400
    life = g.choice([0, 1, 60, 3600, 86400, 864000])
    age = max(0, life + g.choice([-1, 0, 1, 2, -60, 60, 10 ** 6]))
    lines = [('Date', proto.write_date(t), t)] if g.bool(90) else []
    if g.bool(92):
        lines.append(('Age', b'%d' % age, age))
    used = []
    if g.bool(55):
        used.append(('max-age', str(life if g.bool(80) else life + 10), False))
    if g.bool(15):
        used.append(('s-maxage', str(life), False))
    for name in ['must-revalidate', 'no-cache', 'no-store', 'public']:
        if g.bool(12):
            used.append((name, None, False))
    for name in ['stale-if-error', 'stale-while-revalidate']:
        if g.bool(12):
            used.append((name, g.choice(['0', '60']), False))
    used = g.shuffle(used)
    if used:
        lines.append(('Cache-Control', b', '.join(n.encode() + (b'' if a is None else b'=' + a.encode()) for n, a, _ in used), used))
    if g.bool(55):
        x = t + life + g.choice([0, 0, 1, -1, -life])
        lines.append(('Expires', proto.write_date(x), x))
    if g.bool(30):
        lines.append(proto.field(g, 'Warning', 2))
    resp = proto.response(g, [], STATUSES, noisy=0)
    resp['headers'] = [h for h in resp['headers'] if h[0].lower() != 'date'] + g.shuffle(lines)
    req = proto.request(g, [(35, 'Cache-Control', proto.cache_control(['max-age', 'max-stale', 'stale-if-error', 'min-fresh', 'no-cache'], 97)), (10, 'Pragma')], METHODS, noisy=0)
    return {'request': req if g.bool(93) else None, 'responses': [resp]}


def check(case):
    return rules.judge(case, REQ_OWN, RESP_OWN, request_model, model, COUNTED)


PARTS = [Part('exchanges', gen, check, 10000), Part('directives', gen_directives, check, 6000), Part('immutable', gen_immutable, check, 2500), Part('staleness', gen_stale, check, 7000)]
