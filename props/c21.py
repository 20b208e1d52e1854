"""C21: silencing removes exactly the named notices, where asked, and nothing else."""
import io
import os
import re
import shutil
import tempfile

import httpolice
from lib import cli, htmltree, seeds, wild
from lib.core import Part, require, same, sut
from props import c25

PID = 'C21'
TECHNIQUE = 'metamorphic: generated exchanges and silences against the same exchanges with nothing silenced, filtered by an independent model of scope'
NOTE = 'Random sampling; silenced numbers are chosen among those that are reported, mostly.'
RULE = ('1-3 corpus exchanges under mutation; silences by objects (before or after the check), by HTTPolice-Silence fields on requests and '
        'responses, by -s; non-trivial when at least one notice disappears and at least one stays')
ASSUMPTIONS = ['HTTPolice-Silence fields of the unsilenced exchange name only the number 9999, so that the message differs in nothing else']


# ------------------------------------------------------------------ objects and fields

def spell(g, pairs):
    """An HTTPolice-Silence value and its harmless equivalent; pairs: [(index of a number, resp)]."""
    parts = []
    for i, resp in pairs:
        parts.append((i, g.choice(['', '', '0']), g.choice([' ', '\t', '  ']) + g.choice(['resp', 'resp', 'RESP', 'Resp']) if resp else '',
                      g.choice([', ', ',', ' , ', ',,', ', ,'])))
    return {'parts': parts, 'name': g.choice(['HTTPolice-Silence', 'HTTPolice-Silence', 'httpolice-silence', 'HTTPOLICE-SILENCE']),
            'spoil': g.choice([None] * 8 + [' x', ';', ' 1', '-', ' resp resp']), 'text': g.bool(30), 'at': g.int(0, 8)}


def gen_field(g):
    return spell(g, [(g.int(0, 30), g.bool()) for _ in range(g.int(1, 3))])


def gen_exchange(g):
    case = seeds.exchange(g)
    n = len(case['responses'])
    return {'exchange': case,
            'calls': [(g.int(-2, n - 1), g.choice(['before', 'after']), g.list(lambda: g.int(0, 30), 0, 3), g.choice(['list', 'set', 'iter', 'tuple']))
                      for _ in range(g.choice([0, 0, 1, 2]))],
            'fields': [(g.int(-1, n - 1), gen_field(g)) for _ in range(g.choice([1, 0, 1, 2, 3]))],
            'other': g.choice([1277, 1, 0, 10 ** 30])}


def gen(g):
    return g.list(lambda: gen_exchange(g), 1, 3)


def number(i, present, other):
    """Which notice to silence: mostly one that is there."""
    return present[i % len(present)] if present and i < 28 else other


def field_value(f, present, other):
    out = ''
    for i, zeros, resp, sep in f['parts']:
        out += (sep if out else '') + zeros + str(number(i, present, other)) + resp
    out += f['spoil'] or ''
    return out if f['text'] else out.encode()


def harmless(f, present=(), other=0):
    """The same value with numbers that no notice has, which are equal where those of the value are."""
    out = ''
    for i, zeros, resp, sep in f['parts']:
        out += (sep if out else '') + zeros + '99%d' % number(i, present, other) + resp
    out += f['spoil'] or ''
    return out if f['text'] else out.encode()


def well_formed(f):
    return f['spoil'] is None


def add_fields(one, value):
    case = {'request': one['exchange']['request'] and seeds.copy(one['exchange']['request']),
            'responses': [seeds.copy(r) for r in one['exchange']['responses']]}
    for where, f in one['fields']:
        msg = case['request'] if where < 0 else case['responses'][where]
        if msg is not None:
            msg['headers'].insert(min(f['at'], len(msg['headers'])), (f['name'], value(f)))
    return case


def objects(exch):
    """Messages of an exchange, as (key, object); the key of the exchange itself is -2, of the request -1."""
    return ([(-1, exch.request)] if exch.request is not None else []) + list(enumerate(exch.responses))


def run_calls(one, exch, when, present):
    for where, at, numbers, kind in one['calls']:
        if at == when:
            obj = {-2: exch, -1: exch.request}.get(where) if where < 0 else exch.responses[where]
            if obj is not None:
                ids = [number(i, present, one['other']) for i in numbers]
                sut('silence', obj.silence, {'list': list, 'set': set, 'iter': iter, 'tuple': tuple}[kind](ids))


def scope(one, keys, present):
    """{key of a message: silenced numbers}."""
    r = {k: set() for k in keys}
    for where, _, numbers, _ in one['calls']:
        for k in keys:
            if where in (-2, k):
                r[k] |= {number(i, present, one['other']) for i in numbers}
    for where, f in one['fields']:
        if not well_formed(f):
            continue
        for i, _, resp, _ in f['parts']:
            num = number(i, present, one['other'])
            if where >= 0:
                if where in r:
                    r[where].add(num)
            elif -1 in r:
                # (if there is no request, the field is nowhere)
                for k in keys:
                    if (k >= 0) if resp else (k == -1):
                        r[k].add(num)
    return r


def text_of(exchanges):
    buf = io.BytesIO()
    sut('text_report', httpolice.text_report, exchanges, buf)
    return buf.getvalue().decode('utf-8')


def is_marker(line):
    return line.startswith('------------')


NOTICE = re.compile('[ECD] ([0-9]+) ')


def groups(text):
    """The text report as [[marker, [line...]]]."""
    r = []
    for line in text.split('\n')[:-1]:
        if is_marker(line):
            r.append([line, []])
        else:
            require(r, 'line %r before any marker', line)
            r[-1][1].append(line)
    return r


def ungroup(gs):
    """The text report, from groups that belong together: [[[marker, lines]...] per exchange]."""
    out = []
    for exch in gs:
        if any(lines for _, lines in exch):
            for i, (marker, lines) in enumerate(exch):
                if lines or i == 0:
                    out += [marker] + lines
    return ''.join(line + '\n' for line in out)


def per_message(text, exch):
    """Lines of the report on one exchange, by key."""
    keys = [k for k, o in objects(exch) if o.notices]
    gs = groups(text)
    if gs and (-1 not in keys):
        require(not gs[0][1], 'lines right after the exchange marker without a request')
        first = gs.pop(0)[0]
    elif gs:
        first = gs[0][0]
    else:
        first = None
    same('groups in the report', len(keys), len(gs))
    return first, [[k, marker, lines] for k, (marker, lines) in zip(keys, gs)]


def html_notices(exch):
    block = htmltree.report([exch]).blocks
    if not block:
        return None
    [block] = block
    require(not block.notices, 'notices on the exchange itself')
    return [[(n.id, n.severity, n.title, tuple(p if isinstance(p, str) else p.text() for p in n.paras)) for n in s.notices]
            for s in block.sections]


def check(case):
    labels = []
    gone = kept = 0
    silenced, expected_text, single = [], '', []
    for one in case:
        plain = wild.build(add_fields(one, harmless))
        sut('check_exchange', httpolice.check_exchange, plain)
        keys = [k for k, _ in objects(plain)]
        present = sorted({n.id for _, o in objects(plain) for n in o.notices})
        plain = wild.build(add_fields(one, lambda f: harmless(f, present, one['other'])))
        sut('check_exchange', httpolice.check_exchange, plain)
        require(not plain.notices, 'notices on the exchange itself: %r', plain.notices)
        exch = wild.build(add_fields(one, lambda f: field_value(f, present, one['other'])))
        run_calls(one, exch, 'before', present)
        sut('check_exchange', httpolice.check_exchange, exch)
        run_calls(one, exch, 'after', present)
        out = scope(one, keys, present)
        for (k, o), (_, was) in zip(objects(exch), objects(plain)):
            want = [n.id for n in was.notices if n.id not in out[k]]
            same('notices of message %d with %r silenced' % (k, sorted(out[k])), want, [n.id for n in o.notices])
            gone += len(was.notices) - len(want)
            kept += len(want)
        # Reports.
        first, gs = per_message(text_of([plain]), plain)
        left = [[k, marker, [x for x in lines if int(NOTICE.match(x).group(1)) not in out[k]]] for k, marker, lines in gs]
        want = [[first, []]] + [[m, x] for k, m, x in left if k != -1] if first is not None else []
        if want:
            want[0][1] += [x for k, m, lines in left if k == -1 for x in lines]
        want = ungroup([want] if want else [])
        same('text report', want, text_of([exch]))
        expected_text += want
        silenced.append(exch)
        before, after = html_notices(plain), html_notices(exch)
        if before is None or not any(before):
            require(not after or not any(after), 'HTML report has %r', after)
        else:
            want = [[n for n in ns if n[0] not in out[k]] for k, ns in zip(keys, before)]
            if after is None:
                require(not any(want), 'nothing in the HTML report, expected %r', want)
            else:
                same('notices in the HTML report', [[n[:3] for n in x] for x in want], [[n[:3] for n in x] for x in after])
        for where, when, numbers, _ in one['calls']:
            if numbers:
                labels.append('call %s %s' % ({-2: 'exchange', -1: 'request'}.get(where, 'response'), when))
        for where, f in one['fields']:
            for _, _, resp, _ in f['parts'] if well_formed(f) else []:
                labels.append('field on %s%s' % ('request' if where < 0 else 'response', ' for response' if resp else ''))
            if not well_formed(f):
                labels.append('malformed field')
    same('text report on all', expected_text, text_of(silenced))
    labels.append('%d exchanges' % len(case))
    return bool(gone and kept), labels


# ------------------------------------------------------------------ command line

def gen_cli(g):
    case = c25.gen(g)
    return {'format': case['format'], 'files': case['files'], 'silence': g.list(lambda: g.int(0, 40), 1, 4), 'fail_on': case['fail_on'],
            'joined': g.bool()}


def check_cli(case):
    root = tempfile.mkdtemp(prefix='c21-')
    try:
        paths = []
        for name, data in case['files']:
            path = os.fsencode(root) + b'/' + os.fsencode(name)
            cli.write(path, data)
            paths.append(os.fsdecode(path))
        base = ['-i', case['format']] + (['--fail-on', case['fail_on']] if case['fail_on'] else [])
        code, out, err = cli.run(base + ['--'] + paths)
        if err:
            return False, ['failing input']
        lines = out.decode('utf-8').split('\n')[:-1]
        present = sorted({int(NOTICE.match(x).group(1)) for x in lines if not is_marker(x)})
        numbers = [number(i, present, 5) for i in case['silence']]
        opts = []
        for i in numbers:
            opts += ['--silence=%d' % i] if case['joined'] else ['-s', '%d' % i]
        want, exch = [], None
        for x in lines:
            if is_marker(x):
                if not x.startswith('------------ response: '):
                    exch = []
                    want.append(exch)
                exch.append([x, []])
            elif int(NOTICE.match(x).group(1)) not in numbers:
                exch[-1][1].append(x)
        want = ungroup(want)
        silent, out2, err = cli.run(base + opts + ['--'] + paths)
        same('standard error', '', err)
        same('report with %r' % opts, want, out2.decode('utf-8'))
        worst = max([1 + 'DCE'.index(x[0]) for x in want.split('\n')[:-1] if not is_marker(x)], default=0)
        level = {'debug': 1, 'comment': 2, 'error': 3, None: 4}[case['fail_on']]
        same('exit status with %r' % opts, 1 if worst >= level else 0, silent)
        return want != out.decode('utf-8'), ['exit %d -> %d' % (code, silent), 'left' if want else 'nothing left', case['format']]
    finally:
        shutil.rmtree(root)


PARTS = [
    Part('scope', gen, check, 2500),
    Part('options', gen_cli, check_cli, 800),
]
