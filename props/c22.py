"""C22: the verdict on an exchange depends on nothing but that exchange."""
import ast
import copy
import io
import os
import subprocess
import sys

import httpolice
from lib import htmltree, seeds, wild
from lib.core import Part, Violation, require, same, sut

PID = 'C22'
TECHNIQUE = 'metamorphic: generated histories of checks and reports, in this process and in fresh ones with other hash seeds; all must agree'
NOTE = ('Random sampling. HTML reports are compared as trees in which the numbers of cross-references are replaced with what they lead to.')
RULE = ('2-5 exchanges (corpus under mutation, repeated with small differences so that values recur) and a random sequence of checks and reports; '
        'non-trivial when some exchange is checked twice with something in between and has notices')


def related(g, case):
    """An exchange that shares values with another one."""
    case = {'request': case['request'] and seeds.copy(case['request']), 'responses': [seeds.copy(r) for r in case['responses']]}
    if seeds.messages(case):
        for _ in range(g.int(1, 3)):
            msgs = seeds.messages(case)
            i = g.int(0, len(msgs) - 1)
            k = g.int(0, 3)
            hdrs = msgs[i]['headers']
            if k == 0 and hdrs:
                # The same value in another field.
                n, v = g.choice(hdrs)
                hdrs.insert(g.int(0, len(hdrs)), (wild.name(g), v))
            elif k == 1 and hdrs:
                hdrs.insert(g.int(0, len(hdrs)), g.choice(hdrs))
            elif k == 2 and hdrs:
                j = g.int(0, len(hdrs) - 1)
                v = hdrs[j][1]
                hdrs[j] = (g.choice([hdrs[j][0].lower(), hdrs[j][0].upper()]),
                           v.decode('latin-1') if isinstance(v, bytes) else v.encode('latin-1', 'replace'))
            else:
                seeds._change(g, case, msgs[i] is case['request'], msgs[i])
    return case


def gen_cases(g, hi):
    cases = [seeds.exchange(g)]
    for _ in range(g.int(1, hi)):
        cases.append(related(g, g.choice(cases)) if g.bool(60) else seeds.exchange(g) if g.bool(70) else wild.exchange(g))
    return cases


def gen(g):
    cases = gen_cases(g, 3)
    ops = []
    for _ in range(g.int(3, 10)):
        i = g.int(0, len(cases) - 1)
        ops.append(g.weighted([(5, ('check', i)), (2, ('text', i)), (2, ('html', i)),
                               (1, ('all', i)), (1, ('report first', i)), (1, ('fail', i))]))
    return {'cases': cases, 'ops': ops}


# ------------------------------------------------------------------ verdicts

def text(exchanges):
    buf = io.BytesIO()
    httpolice.text_report(exchanges, buf)
    return buf.getvalue()


def html(exchanges):
    buf = io.BytesIO()
    httpolice.html_report(exchanges, buf)
    return buf.getvalue()


def tree(data):
    return htmltree.normal(htmltree.Report(data))


def verdict(exch):
    return {'ids': wild.ids(exch), 'text': text([exch])}


def objects(exch):
    return [exch] + ([exch.request] if exch.request is not None else []) + list(exch.responses)


def no_duplicates(exch):
    for o in objects(exch):
        notices = list(o.notices)
        for i, n in enumerate(notices):
            for m in notices[:i]:
                require(not (n.id == m.id and n.context == m.context), 'no. %d is reported twice for the same thing: %r', n.id, n.context)


def snapshot(exch):
    """What the caller gave (the start line, entries, body)."""
    r = []
    for o in objects(exch)[1:]:
        r.append([getattr(o, a, None) for a in ('scheme', 'method', 'target', 'version', 'status', 'reason', 'body', 'remark')] +
                 [[(str(e.name), e.value) for e in x] if x is not None else None for x in (o.header_entries, o.trailer_entries)])
    return repr(r)


def check(case):
    cases = case['cases']
    first, trees = {}, {}
    counts = {}
    kept = []
    inputs = []

    def done(i, exch, what):
        v = verdict(exch)
        if i in first:
            same('%s: exchange %d is judged differently' % (what, i), first[i], v)
        first.setdefault(i, v)
        counts[i] = counts.get(i, 0) + 1

    for k, (op, i) in enumerate(case['ops']):
        what = 'step %d (%s)' % (k, op)
        given = copy.deepcopy(cases[i])
        exch = sut('constructing', wild.build, given)
        inputs.append((i, given))
        if op == 'report first':
            # Reports on an equal exchange that was not checked.
            other = sut('constructing', wild.build, cases[i])
            sut('html_report', html, [other])
            sut('text_report', text, [other])
        before = snapshot(exch)
        sut('check_exchange', httpolice.check_exchange, exch)
        same(what + ': checking changed the message', before, snapshot(exch))
        no_duplicates(exch)
        done(i, exch, what)
        if op == 'html':
            t = tree(sut('html_report', html, [exch]))
            if i in trees:
                same(what + ': HTML report', trees[i], t)
            trees.setdefault(i, t)
            done(i, exch, what + ' after the HTML report')
        elif op == 'all':
            kept.append((i, exch))
            whole = sut('text_report', text, [e for _, e in kept])
            same(what + ': report on several', b''.join(first[j]['text'] for j, _ in kept), whole)
            sut('html_report', html, [e for _, e in kept])
            for j, e in kept:
                done(j, e, what)
        elif op == 'fail':
            # A report or check that fails halfway.
            class Full:
                def write(self, _):
                    raise OSError('full')
            for f in (httpolice.text_report, httpolice.html_report):
                try:
                    f([exch, exch], Full())
                except OSError:
                    pass
            done(i, exch, what)
    for i, given in inputs:
        same('the lists that were given', cases[i], given)
    order = [i for _, i in case['ops']]
    again = any(order.count(i) > 1 and any(first[i]['ids'][0] or [] or x for x in first[i]['ids'][1]) for i in set(order))
    return bool(again and len(set(order)) > 1), ['%s' % op for op, _ in case['ops']] + ['%d cases' % len(cases)]


# ------------------------------------------------------------------ processes

REPEATING = [('Strict-Transport-Security', b'max-age=1', b'; ', ['a', 'b', 'includeSubDomains', 'max-age=1', 'c', 'd=1', 'e']),
             ('Content-Type', b'text/plain', b'; ', ['charset=utf-8', 'a=b', 'c=d', 'e=f', 'foo="bar"', 'x=y']),
             ('Content-Disposition', b'attachment', b'; ', ['filename=a', 'a=b', 'c=d', 'e=f', "filename*=utf-8''a"]),
             ('Cache-Control', b'foo', b', ', ['no-store', 'max-age=1', 'public', 'no-cache', 'must-revalidate', 'a', 'b=c', 'private', 'max-stale', 'no-transform']),
             ('Forwarded', b'ext=1', b';', ['for=a', 'by=_b', 'host=a.com', 'proto=http', 'a=b', 'c=d']),
             ('Prefer', b'foo', b', ', ['respond-async', 'wait=5', 'return=minimal', 'handling=strict', 'a', 'b=c', 'return=representation']),
             ('WWW-Authenticate', b'Bearer x=y', b', ', ['realm="a"', 'scope="a b"', 'error=foo', 'error_description="x"', 'error_uri="/x"', 'a=b', 'c=d']),
             ('WWW-Authenticate', b'Basic realm="x"', b', ', ['charset="x"', 'a=b', 'c=d', 'e=f', 'realm=y']),
             ('Link', b'<a>', b'; ', ['rel=next', 'title=x', 'media=y', 'type="a/b"', "title*=utf-8'en'a", 'hreflang=en', 'a=b']),
             ('Alt-Svc', b'h2=":1"', b'; ', ['ma=1', 'persist=1', 'a=b', 'c=d']),
             ('Accept', b'text/plain', b';', ['a=b', 'c=d', 'q=1', 'e', 'level=1']),
             ('Connection', b'close', b', ', ['Foo', 'Bar', 'Date', 'Age', 'ETag', 'upgrade', 'TE', 'Vary']),
             ('Vary', b'Foo', b', ', ['Accept', 'Bar', '*', 'Host', 'Cookie']), ('Trailer', b'Foo', b', ', ['Bar', 'Age', 'Content-Length', 'Host', 'ETag']),
             ('Transfer-Encoding', b'foo', b', ', ['gzip', 'chunked', 'deflate', 'identity']), ('Accept-Encoding', b'foo', b', ', ['x-gzip', 'gzip', 'br', '*', 'a'])]


def crowded(g):
    """An exchange with many things wrong with the elements of single fields, at the same time."""
    case = seeds.typed(g)
    msg = g.choice(seeds.messages(case))
    for _ in range(g.int(1, 3)):
        name, first, sep, pool = g.choice(REPEATING)
        some = g.sample(pool, g.int(2, len(pool)))
        elements = some + some if g.bool(50) else [g.choice(some) for _ in range(g.int(4, 12))]
        msg['headers'].append((name, sep.join([first] + [x.encode() for x in g.shuffle(elements)])))
    return case


def gen_processes(g):
    cases = gen_cases(g, 11) + g.list(lambda: crowded(g), 1, 5)
    return {'cases': cases, 'order': g.shuffle(list(range(len(cases)))), 'seed': g.int(0, 10 ** 6), 'noise': g.list(lambda: wild.exchange(g), 0, 2),
            'reports': g.bool(), 'optimize': g.bool(20)}


WORKER = '''
import sys
sys.path.insert(0, %r)
from props import c22
c22.worker()
''' % os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def full(exch):
    return verdict(exch), html([exch])


def worker():
    case = ast.literal_eval(sys.stdin.buffer.read().decode('utf-8', 'surrogatepass'))
    out = {}
    for c in case['noise']:
        e = wild.build(c)
        httpolice.check_exchange(e)
        if case['reports']:
            html([e])
    for i in case['order']:
        e = wild.build(case['cases'][i])
        httpolice.check_exchange(e)
        out[i] = full(e)
    sys.stdout.buffer.write(repr(out).encode('utf-8', 'surrogatepass'))


def check_processes(case):
    here = []
    for c in case['cases']:
        e = sut('constructing', wild.build, c)
        sut('check_exchange', httpolice.check_exchange, e)
        here.append(sut('reporting', full, e))
    env = dict(os.environ, PYTHONHASHSEED=str(case['seed']))
    p = subprocess.run([sys.executable] + (['-O'] if case['optimize'] else []) + ['-c', WORKER], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       input=repr(case).encode('utf-8', 'surrogatepass'), timeout=50)
    if p.returncode:
        raise Violation('the other process failed: %s' % p.stderr.decode('utf-8', 'replace')[-600:])
    there = ast.literal_eval(p.stdout.decode('utf-8', 'surrogatepass'))
    exact = 0
    for i, (v, page) in enumerate(here):
        same('exchange %d in a process with hash seed %d' % (i, case['seed']), v, there[i][0])
        if page == there[i][1]:
            exact += 1
        else:
            same('HTML report on exchange %d in a process with hash seed %d' % (i, case['seed']), tree(page), tree(there[i][1]))
    return any(v['text'] for v, _ in here), ['%d exchanges' % len(here), '%d%% of HTML reports identical' % (exact * 10 // len(here) * 10)]


# ------------------------------------------------------------------ many causes

MANY = ['Accept', 'Accept-Encoding', 'Accept-Language', 'Allow', 'Cache-Control', 'Connection', 'Content-Encoding', 'Link', 'Vary', 'Via', 'Warning', 'If-Match',
        'Prefer', 'Forwarded', 'Pragma', 'TE', 'Trailer', 'Upgrade', 'WWW-Authenticate', 'Alt-Svc']
BROKEN = [b'@', b'"', b'a b c', b'=', b'(', b'\x00', b'[]', b'a, b c d', b'{', b'a"']


def gen_many(g):
    """A message with up to a few hundred fields, most of them broken."""
    names = g.sample(MANY, g.int(1, 8))
    entries = [(g.choice(names), g.choice(BROKEN)) if g.bool(80) else (g.choice(['X-Foo', 'Foo', 'Bar']), b'bar')
               for _ in range(g.weighted([(3, g.int(1, 20)), (3, g.int(21, 90)), (2, g.int(91, 300))]))]
    trailers = g.int(0, len(entries)) if g.bool(25) else 0
    for i in range(len(entries) - trailers, len(entries)):
        entries[i] = ('Foo' if entries[i][1] == b'bar' else 'Link', entries[i][1])          # permitted there, unlike most
    return {'entries': entries, 'trailers': trailers, 'request': g.bool()}


def build_many(case, entries):
    k = len(entries) - case['trailers']
    head, trailer = entries[:k], entries[k:]
    if case['request']:
        return httpolice.Exchange(httpolice.Request('http', 'POST', '/', 'HTTP/1.1', [('Host', b'a.com')] + head, b'', trailer), [])
    return httpolice.Exchange(None, [httpolice.Response('HTTP/1.1', 200, 'OK', [('Date', b'Fri, 20 Nov 2015 06:00:00 GMT')] + head, b'', trailer)])


def check_many(case):
    entries = [tuple(e) for e in case['entries']]
    exch = build_many(case, entries)
    sut('check_exchange', httpolice.check_exchange, exch)
    msg = exch.request or exch.responses[0]
    no_duplicates(exch)
    all_entries = list(msg.header_entries)[1:] + list(msg.trailer_entries)
    found = [n.context.get('place') for n in msg.notices if n.id == 1000]
    broken = [(i, e) for i, e in enumerate(all_entries) if e.value != b'bar']
    for i, e in broken:
        k = sum(1 for f in found if f is e)
        require(k == 1, 'field %d of %d (%s: %r) is broken, and this is reported %d times', i, len(entries), e.name, e.value, k)
    require(len(found) == len(broken), '%d syntax errors for %d broken fields', len(found), len(broken))
    lines = text([exch]).decode('utf-8').split('\n')
    same('lines of the text report about them', len(broken), sum(1 for x in lines if x.startswith('E 1000 ')))
    return len(broken) > 20, ['%d broken' % (len(broken) // 20 * 20), 'trailers' if case['trailers'] else 'no trailers']


PARTS = [
    Part('many', gen_many, check_many, 400),
    Part('history', gen, check, 1500),
    Part('processes', gen_processes, check_processes, 160),
]
