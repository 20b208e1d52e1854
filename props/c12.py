"""Request verdicts follow the protocol rules."""
from lib import proto, rules
from lib.core import Part

PID = 'C12'
TECHNIQUE = 'property-based testing of generated requests against a reference model of the request rules'
NOTE = 'a request and its header fields are generated together with their meaning; an independent model says which notices are due'
RULE = 'a case is non-trivial if the model says that at least one notice of this property is due'
ASSUMPTIONS = ['the snapshot of what is known about fields, methods and media types in lib/tables.json']

OWN = {1020, 1021, 1022, 1026, 1028, 1029, 1030, 1031, 1032, 1034, 1035, 1041, 1045, 1050, 1053, 1054, 1056, 1057, 1059, 1061, 1062,
       1063, 1066, 1067, 1068, 1070, 1093, 1116, 1189, 1192, 1197, 1213, 1228, 1230, 1231, 1233, 1234, 1244, 1245, 1276, 1277, 1280,
       1295}

WANTED = [(12, 'Host'), (12, 'Content-Length'), (10, 'Transfer-Encoding'), (14, 'TE'), (16, 'Connection'), (8, 'Expect'), (12, 'Max-Forwards'),
          (14, 'Referer'), (25, 'User-Agent'), (14, 'Accept-Encoding'), (14, 'Accept'), (7, 'Accept-Charset'), (7, 'Accept-Language'),
          (25, 'Content-Type'), (9, 'Upgrade'), (9, 'HTTP2-Settings'), (7, 'Trailer'), (6, 'Warning', proto.warnings([214, 214, 199, 299])), (8, 'Cache-Control', proto.cache_control(['no-transform', 'no-cache', 'max-age'])), (4, 'Keep-Alive'),
          (4, 'Last-Modified'), (4, 'Content-MD5')]

URLSAFE = set('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_')


def covers(wide, narrow):
    """Whether a range of Accept* covers all that another does, and more."""
    wide, narrow = wide.lower(), narrow.lower()
    if wide == narrow:
        return False
    if wide in ('*', '*/*'):
        return True
    return wide.endswith('/*') and narrow.startswith(wide[:-1])


def subsumption(field):
    """Pairs of alternatives one of which is pointless: the other one includes it, and has the same weight."""
    out = []
    items = [(name, has_params, 1.0 if q is None else q) for name, has_params, q in field.items]
    for i, (wide, special, q) in enumerate(items):
        for j, (narrow, _, q2) in enumerate(items):
            if i != j and not special and q == q2 and covers(wide, narrow):
                out.append((field.name, wide, narrow))
    return out


def model(req, v):
    d = req.data
    method, version, body = d['method'], req.version, req.body
    old = version in ('HTTP/1.0', 'HTTP/1.1')
    cl, te, ct = req['Content-Length'], req['Transfer-Encoding'], req['Content-Type']
    rules.common(req, d['scheme'] == 'https', v)

    nonempty = req.body_known_nonempty
    # Whether there is a body at all, even if it is empty.
    if nonempty:
        has_body = True
    elif old:
        has_body = cl.present or te.present
    else:
        has_body = None

    v(1045, d['form'] is None)
    v(1295, method != method.upper() and method.upper() in proto.METHODS, about=method.upper())
    v(1041, nonempty and ct.absent)
    v(1062, nonempty and ct.absent and method == 'OPTIONS')
    defines = proto.method_info(method, 'defines_body')
    v(1021, old and defines is True and cl.absent and te.absent)
    v(1022, defines is False and body == b'' and cl.present)
    for m, notice in [('GET', 1056), ('HEAD', 1057), ('DELETE', 1059), ('CONNECT', 1061)]:
        v(notice, nonempty and method == m)
    for n in req.names:
        if proto.info(n, 'for_request') is False:
            v(1063, about=n)
        elif proto.info(n, 'representation_metadata') and has_body is False:
            v(1053, about=n)
    if req.ignored:
        v.skip(1063, 1053)

    codings = req['TE'].items
    v(1028, 'chunked' in codings)
    if req['TE'].bad:
        v.skip(1244, 1029)
    v(1244, version == 'HTTP/2' and any(c != 'trailers' for c in codings), about='TE')
    v(1029, version == 'HTTP/1.1' and codings and not req.has('Connection', 'TE'))

    v(1031, version == 'HTTP/1.1' and req['Host'].absent)
    v(1032, req['Host'].present and req.lines[0][0].lower() != 'host')
    v(1066, req['Expect'].ok and has_body is False)
    v(1067, req['Max-Forwards'].present and method not in ('OPTIONS', 'TRACE'))
    v(1068, d['scheme'] == 'http' and req['Referer'].ok and req['Referer'].val.lower().startswith('https:'))
    ua = req['User-Agent']
    v(1070, ua.absent)
    v(1093, ua.ok and all(p in proto.LIBRARIES for p in ua.val), about=ua.val if ua.ok else ())
    v(1116, any(name in ('x-gzip', 'x-compress') and q is not None for name, _, q in req['Accept-Encoding'].items),
      about=[name for name, _, q in req['Accept-Encoding'].items if name in ('x-gzip', 'x-compress') and q is not None])
    pointless = [p for n in ('Accept', 'Accept-Charset', 'Accept-Encoding', 'Accept-Language') for p in subsumption(req[n])]
    v(1276, pointless, about=pointless)
    v(1213, method == 'PATCH' and ct.ok and proto.TYPES.get(ct.val[0], {}).get('patch') is False)

    settings = req['HTTP2-Settings']
    v(1231, 'h2c' in [n for n, _ in req['Upgrade'].items] and settings.absent)
    if settings.bad:
        v.skip(1230)
    v(1230, settings.ok and not req.has('Connection', 'HTTP2-Settings'))
    v(1234, settings.ok and not set(settings.val) <= URLSAFE)


def gen(g):
    return {'request': proto.request(g, WANTED), 'responses': []}


def check(case):
    return rules.judge(case, OWN, request=model)


PARTS = [Part('requests', gen, check, 24000)]
