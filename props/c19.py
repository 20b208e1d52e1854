"""C19: interim and final responses are judged by their place in the sequence."""
import collections
import io
import re

import httpolice
from lib import seeds, wild
from lib.core import Part, same, sut

PID = 'C19'
TECHNIQUE = 'generated sequences of responses; oracle: each response checked alone with the same request, plus a model of the sequence'
NOTE = 'Random sampling. Sequences of up to 6 responses.'
RULE = 'one request (or none) and 0-6 responses, interim ones favoured; non-trivial when there are at least two responses'

STATUSES = [100, 101, 102, 103, 199, 99, 200, 204, 304, 401, 500, 150, 0, -1, 10 ** 20]


def gen_response(g):
    k = g.int(0, 9)
    if k <= 5:
        r = {'headers': g.choice([[], [('Date', b'Thu, 31 Dec 2015 18:26:56 GMT')], [('Upgrade', b'h2c'), ('Connection', b'Upgrade')],
                                  [('Connection', b'upgrade'), ('upgrade', b'foo/1')], [('Content-Length', b'0')], [('Link', b'</a>; rel=preload')]]),
             'body': g.choice([b'', b'', None, b'x']), 'trailers': None, 'version': g.choice(['HTTP/1.1', 'HTTP/1.1', 'HTTP/1.0', 'HTTP/2', None]),
             'reason': g.choice(['OK', None, 'Continue']), 'status': g.choice(STATUSES[:g.choice([3, 8, 15])])}
        return dict(r, headers=list(r['headers']))
    r = None
    while r is None:
        c = g.choice(seeds.corpus())
        r = seeds.copy(g.choice(c['responses'])) if c['responses'] else None
        if r is None and g.bool(20):
            r = wild.response(g)
    if g.bool(40):
        r['status'] = g.choice(STATUSES)
    return r


def gen(g):
    base = seeds.exchange(g, 2)
    req = base['request'] if g.bool(93) else None
    if req and g.bool(60):
        v = g.choice([b'100-continue', b'100-continue', b'100-Continue', '100-CONTINUE', b'foo', b'', b'100-continue, 100-continue',
                      b'100-continue;a'])
        req['headers'] = [h for h in req['headers'] if h[0].lower() != 'expect']
        req['headers'].insert(g.int(0, len(req['headers'])), (g.choice(['Expect', 'expect']), v))
        if g.bool(30):
            req['headers'] += [('Upgrade', b'h2c'), ('Connection', b'upgrade')]
        if g.bool(50) and req['body'] in (b'', None):
            req.update(method='POST', body=b'x')
    resps = [gen_response(g) for _ in range(g.choice([2, 3, 1, 4, 5, 6, 0]))]
    if g.bool(20) and resps:
        # The same response again.
        resps.insert(g.int(0, len(resps)), seeds.copy(g.choice(resps)))
    return {'request': req, 'responses': resps}


def waits(req):
    """Whether the request expects 100 (Continue), or None if this isn't clear."""
    if req is None:
        return False
    values = [v for n, v in req['headers'] + (req['trailers'] or []) if n.lower() == 'expect']
    if not values:
        return False
    if len(values) > 1:
        return None
    v = values[0] if isinstance(values[0], bytes) else values[0].encode('latin-1', 'replace')
    return v.lower() == b'100-continue'


def text(exch):
    buf = io.BytesIO()
    sut('text_report', httpolice.text_report, [exch], buf)
    return buf.getvalue().decode('utf-8')


def check(case):
    exch = sut('constructing', wild.build, case)
    sut('check_exchange', httpolice.check_exchange, exch)
    req_ids, resp_ids, own = wild.ids(exch)
    same('notices on the exchange itself', [], own)
    alone = sut('constructing', wild.build, {'request': case['request'], 'responses': []})
    sut('check_exchange', httpolice.check_exchange, alone)
    # (some notices on the request appear only when a response is looked at)
    on_request = collections.Counter(wild.ids(alone)[0] or [])
    final = None
    need = waits(case['request'])
    after = []
    labels = ['%d responses' % len(resp_ids)]
    for i, (r, ids) in enumerate(zip(case['responses'], resp_ids)):
        single = sut('constructing', wild.build, {'request': case['request'], 'responses': [r]})
        sut('check_exchange', httpolice.check_exchange, single)
        expected = collections.Counter(wild.ids(single)[1][0])
        on_request |= collections.Counter(wild.ids(single)[0] or [])
        del expected[1305]
        if final is not None:
            expected[1304] += 1
            after.append('%d response after %d' % (r['status'], final))
            labels.append('after final')
        elif not 100 <= r['status'] <= 199:
            final = r['status']
        if r['status'] == 100:
            need = need and False
        if r['status'] == 101 and need:
            expected[1305] += 1
            labels.append('101 before 100')
        ids = collections.Counter(ids)
        if r['status'] == 101 and need is None:
            del ids[1305]
        same('notices on response %d (status %d)' % (i, r['status']), +expected, ids)
    same('notices on the request', +on_request, collections.Counter(req_ids or []))
    found = [line.split(' ', 2)[2] for line in text(exch).split('\n') if re.match('E 1304 ', line)]
    same('responses after final ones in the report', after, found)
    return len(resp_ids) > 1, labels


PARTS = [Part('sequence', gen, check, 4500)]
