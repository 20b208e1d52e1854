"""Comparing what HTTPolice reports with the verdicts of a model; what the models of several properties share."""
import collections
import re

import httpolice
from lib import proto, wild
from lib.core import require, sut

UNKNOWN = '!unknown'            # there, but with no usable value

# Notices that say which field they are about: reported once per distinct field name.
COUNTED = {1063, 1064, 1053, 1052, 1127, 1130, 1131, 1146, 1244, 1030, 1197, 1034}


class Verdicts:
    """What one message should be blamed for."""

    def __init__(self):
        self.due = collections.Counter()
        self.open = set()       # not judged here
        self.loose = set()      # how often does not matter
        self.about = collections.defaultdict(set)       # what the notices should name: tuples of strings

    def __call__(self, notice_id, if_=True, n=None, about=()):
        """about: one string, one tuple of strings that go together, or an iterable (not a tuple) of such."""
        about = [about] if isinstance(about, (str, tuple)) and about else list(about)
        if n is None:
            n = 1
        if if_ and n:
            self.due[notice_id] += n
            self.about[notice_id] |= {(a,) if isinstance(a, str) else a for a in about}

    def skip(self, *ids):
        self.open.update(ids)


def observed(case):
    exch = sut('building the exchange', wild.build, proto.plain(case))
    sut('check_exchange', httpolice.check_exchange, exch)
    return wild.ids(exch)


def compare(what, own, verdicts, actual, counted=COUNTED):
    """Returns the ids that were expected and seen."""
    actual = collections.Counter(i for i in actual if i in own)
    missing, extra = [], []
    for i in sorted(own - verdicts.open):
        want, got = verdicts.due[i], actual[i]
        if i not in counted or i in verdicts.loose:
            want, got = min(want, 1), min(got, 1)
        if want > got:
            missing.append(i if want == 1 or i not in counted else (i, want, got))
        elif got > want:
            extra.append(i if got == 1 or i not in counted else (i, want, got))
    require(not missing and not extra, '%s: not reported although due: %r; reported although not due: %r', what, missing, extra)
    return sorted(i for i in verdicts.due if i in own and i not in verdicts.open)


def judge(case, own, resp_own=None, request=None, response=None, counted=COUNTED):
    """own is judged in requests, resp_own (or own) in responses. request(Msg, Verdicts) and response(Msg, request Msg or None, Verdicts) are models."""
    req_ids, resp_ids, _ = observed(case)
    labels = []
    req = proto.Msg(case['request']) if case['request'] else None
    if request and req:
        v = Verdicts()
        request(req, v)
        labels += compare('request', own, v, req_ids, counted)
    for n, data in enumerate(case['responses']):
        if response:
            v = Verdicts()
            msg = proto.Msg(data)
            msg.before = [r['status'] for r in case['responses'][:n]]
            response(msg, req, v)
            labels += compare('response %d' % (n + 1), resp_own or own, v, resp_ids[n], counted)
    return bool(labels), ['n%d' % i for i in sorted(set(labels))] or ['nothing due']


# ------------------------------------------------------------------ Cache-Control

def cc_argument(name, argument):
    """None (fine without), UNKNOWN, a number, a list, or whatever an unknown directive has."""
    rec = proto.TABLES['directives'].get(name)
    if rec is None:
        return argument
    if argument is None:
        return UNKNOWN if rec['argument'] == 'required' else None
    if rec['argument'] == 'no':
        return UNKNOWN
    if name in proto.NUMERIC:
        return int(argument) if argument and all(c in '0123456789' for c in argument) else UNKNOWN
    if name in proto.LISTED:
        parts = [p.strip(' \t') for p in argument.split(',')]
        return [p for p in parts if p] if all(proto.is_token(p) for p in parts if p) else UNKNOWN
    return argument


def cc(msg, name):
    """The value of the first such directive; True if it has none; None if there is no such directive."""
    for n, argument, _ in msg['Cache-Control'].items:
        if n == name:
            v = cc_argument(n, argument)
            return True if v is None else v
    return None


def close_delimited(resp, req):
    """Whether the end of the connection is what marks the end of the body (RFC 7230 section 3.3.3); None if unknown."""
    s = resp.data['status']
    if resp['Content-Length'].present or resp.has('Transfer-Encoding', 'chunked') or 100 <= s < 200 or s in (204, 304) or resp.version == 'HTTP/2':
        return False
    if req is None:
        return None
    method = req.data['method']
    if method == 'HEAD' or (method == 'CONNECT' and 200 <= s <= 299):
        return False
    return True if resp.version in ('HTTP/1.0', 'HTTP/1.1') else None


# ------------------------------------------------------------------ URIs

def split_uri(s):
    """RFC 3986 appendix B; None marks what is not there."""
    m = re.match(r'^(?:([^:/?#]+):)?(?://([^/?#]*))?([^?#]*)(?:\?([^#]*))?(?:#(.*))?$', s, re.DOTALL)
    return list(m.groups())


def _remove_dots(path):
    out = []
    parts = path.split('/')
    for i, seg in enumerate(parts):
        last = i == len(parts) - 1
        if seg == '..':
            if len(out) > 1:
                out.pop()
            if last:
                out.append('')
        elif seg == '.':
            if last:
                out.append('')
        else:
            out.append(seg)
    return '/'.join(out)


def resolve(base, ref):
    """RFC 3986 section 5.2, for a base with an authority."""
    bs, ba, bp, bq, _ = split_uri(base)
    s, a, p, q, f = split_uri(ref)
    if s is not None:
        p = _remove_dots(p) if a is not None else p
    else:
        s = bs
        if a is not None:
            p = _remove_dots(p)
        else:
            a = ba
            if p == '':
                p = bp
                if q is None:
                    q = bq
            elif p.startswith('/'):
                p = _remove_dots(p)
            else:
                p = _remove_dots(bp[:bp.rindex('/') + 1] + p if '/' in bp else '/' + p)
    return s + ':' + ('' if a is None else '//' + a) + p + ('' if q is None else '?' + q) + ('' if f is None else '#' + f)


def normal(uri):
    """Loosely the same for URIs that may be called the same."""
    s, a, p, q, _ = split_uri(uri)
    s = (s or '').lower()
    a = (a or '').lower()
    a = re.sub(r':(%s)?$' % {'http': '80', 'https': '443'}.get(s, '-'), '', a)
    p = re.sub('%78', 'x', p) or '/'
    p = re.sub('/+', '/', p)
    return s, a, p, q or None


def effective_uri(req):
    form, scheme = req.data['form'], req.data['scheme']
    if form == 'absolute':
        return req.data['target']
    if form is None or scheme is None:
        return None
    if form == 'authority':
        return scheme + '://' + req.data['target']
    if not req['Host'].ok:
        return None
    return scheme + '://' + req['Host'].val + (req.data['target'] if form == 'origin' else '')


def same_uri(base, ref):
    """Whether the reference leads back to the base; None if that depends on how URIs are compared or odd slashes joined."""
    full = resolve(base, ref)
    if full == base:
        return None if '//' in split_uri(base)[2] or not base.startswith('http') or base.endswith('?') else True
    # So does an empty fragment.
    return None if '#' not in full.rstrip('#') and normal(full.rstrip('#')) == normal(base) else False


# ------------------------------------------------------------------ any message

COMMON = {1020, 1026, 1030, 1034, 1035, 1050, 1054, 1189, 1191, 1192, 1197, 1228, 1233, 1244, 1245, 1277, 1280}


def distinct(names):
    return len({n.lower() for n in names})


def name_known(name):
    return name.lower() in proto.LOWER


def early(msg):
    return msg.data.get('status') == 103


def transformed(msg, v):
    """Whether the message was transformed by a proxy."""
    if msg.data.get('status') == 203:
        return True
    return 214 in [w[0] for w in msg['Warning'].items]


def common(msg, tls, v):
    ct = msg['Content-Type']
    conn = msg['Connection']
    deprecated = [n for n in msg.names if proto.info(n, 'deprecated')]
    v(1197, n=distinct(deprecated), about=deprecated)
    v(1277, any(n.lower().startswith('x-') and not name_known(n) for n in msg.names))
    v(1026, bool(msg.ignored), about=msg.ignored)
    surprising = [(n.lower(), raw) for n, raw, _ in msg.trailers if not msg.has('Trailer', n)]
    v(1030, n=len(set(surprising)), about=[n for n, _ in surprising])
    v(1054, msg.version == 'HTTP/1.1' and msg['Trailer'].present and not msg.has('Transfer-Encoding', 'chunked'))
    v(1020, msg['Transfer-Encoding'].present and msg['Content-Length'].present)
    end_to_end = [o for o in conn.items if proto.info(o, 'bad_for_connection')]
    v(1034, n=distinct(end_to_end), about=end_to_end)
    if ct.ok:
        name, params = ct.val
        v(1035, proto.TYPES.get(name, {}).get('deprecated') is True, about=name)
        v(1280, name == 'application/json' and any(p[0] == 'charset' for p in params))
    protocols = [n for n, _ in msg['Upgrade'].items]
    v(1228, 'h2' in protocols)
    v(1233, 'h2c' in protocols and tls)
    if early(msg):
        return
    v(1050, msg['Upgrade'].present and not msg.has('Connection', 'upgrade'))
    if transformed(msg, v):
        warned = 214 in [w[0] for w in msg['Warning'].items]
        if msg.data.get('status') != 203:
            v(1189)
        v(1191, not warned)
        no_transform = cc(msg, 'no-transform')
        if no_transform == UNKNOWN:
            v.skip(1192)
        v(1192, no_transform)
    if msg.version == 'HTTP/2':
        hop = [n for n in msg.names if n.lower() in ('connection', 'transfer-encoding', 'keep-alive')]
        v(1244, n=distinct(hop), about=hop)
        v(1245, msg['Upgrade'].present)
        if msg.ignored:
            v.skip(1244, 1245)
