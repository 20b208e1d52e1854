"""Each notice names what it is about."""
import importlib
import re

import httpolice
import props.c18
from lib import htmltree, proto, rules, wild
from lib.core import Part, Violation, require, sut

PID = 'C29'
TECHNIQUE = 'property-based testing of generated exchanges against a reference model that says which notices are due and what each of them is about'
NOTE = ('the exchanges and models of C12 to C18 with, for every notice that is due, the names and values that it is about; the notices are read from the HTML report: each must '
        'name one of the things that it should be about, and each of these must be named')
RULE = 'a case is non-trivial if it has a notice whose subject the model knows'
ASSUMPTIONS = ['the snapshot of what is known about fields, methods and media types in lib/tables.json',
               'subjects that are not plain text are left out, since the report may show them in another way']

# What says it: the title, or else the whole notice.
ANYWHERE = {1093, 1102, 1103, 1158, 1160, 1164, 1170, 1256, 1257, 1282, 1297}
# One of several is enough.
ONE = {1093, 1169, 1183, 1200, 1276}
EXACT = {1256, 1295}
# The order of the names matters: "X is as good as Y".
ORDERED = {1238, 1268, 1276, 1304}


def words(s):
    return ' '.join(s.split())


def says(text, fact, exact, ordered=False):
    if ordered:
        return bool(re.search('.*'.join(r'(?<![\w-])' + re.escape(words(x)) + r'(?![\w-])' for x in fact), text, re.IGNORECASE))
    return all(re.search(r'(?<![\w-])' + re.escape(words(x)) + r'(?![\w-])', text, 0 if exact else re.IGNORECASE) for x in fact)


def plain(fact):
    return all(re.fullmatch('[!-~]([ -~]*[!-~])?', x) and '  ' not in x for x in fact)


def naming(what, notices, v):
    """notices: those of one message, as shown."""
    labels = []
    for ident, facts in sorted(v.about.items()):
        facts = sorted(facts)
        if not facts or ident in v.open or not v.due[ident] or not all(plain(f) for f in facts):
            continue
        shown = [words(' '.join([n.title] + n.paras) if ident in ANYWHERE else n.title) for n in notices if n.id == ident]
        if not shown:
            continue            # other properties are about that
        exact, ordered = ident in EXACT, ident in ORDERED
        for text in shown:
            require(any(says(text, f, exact, ordered) for f in facts), '%s: no. %d should be about one of %r: %r', what, ident, facts, text)
        if ident not in ONE:
            for f in facts:
                require(any(says(text, f, exact, ordered) for text in shown), '%s: no notice no. %d is about %r: %r', what, ident, f, shown)
        labels.append('n%d' % ident)
    return labels


def judge(case, request, response):
    exch = sut('building the exchange', wild.build, proto.plain(case))
    sut('check_exchange', httpolice.check_exchange, exch)
    if case['request'] is None and not case['responses']:
        return False, ['no messages']
    [block] = htmltree.report([exch]).blocks
    sections = list(block.sections)
    labels = []
    req = proto.Msg(case['request']) if case['request'] else None
    if req:
        v = rules.Verdicts()
        request(req, v)
        notices = sections.pop(0).notices
        labels += naming('request', notices, v) + malformed('request', notices, req)
    require(len(sections) >= len(case['responses']), 'messages missing from the report')
    sections = sections[len(sections) - len(case['responses']):]
    for n, data in enumerate(case['responses']):
        v = rules.Verdicts()
        msg = proto.Msg(data)
        msg.before = [r['status'] for r in case['responses'][:n]]
        response(msg, req, v)
        labels += naming('response %d' % (n + 1), sections[n].notices, v) + malformed('response %d' % (n + 1), sections[n].notices, msg)
    return bool(labels), sorted(set(labels)) or ['nothing named']


def malformed(what, notices, msg):
    bad = {n for n, _, value, in_trailer in msg.lines if value == proto.BAD and not in_trailer}
    maybe = bad | {n for n, _, value, in_trailer in msg.lines if value is None or in_trailer}
    shown = [words(n.title) for n in notices if n.id == 1000]
    for title in shown:
        require(any(says(title, (n,), False) for n in maybe), '%s: no. 1000 should be about one of %r: %r', what, sorted(maybe), title)
    for n in bad if shown else ():
        require(any(says(title, (n,), False) for title in shown), '%s: no notice no. 1000 is about %s: %r', what, n, shown)
    return ['n1000'] if shown else []


def check_spelling(case):
    exch = props.c18.build_spelling(case)
    sut('check_exchange', httpolice.check_exchange, exch)
    [block] = htmltree.report([exch]).blocks
    v = rules.Verdicts()
    for i, name in case['about']:
        v(i, about=name)
    labels = naming('the message', [n for s in block.sections for n in s.notices], v)
    return bool(labels), labels or ['nothing named']


def part(name, cases):
    module = importlib.import_module('props.' + name)
    gens = [p.gen for p in module.PARTS if p.name != 'spelling']

    def gen(g):
        return g.choice(gens)(g)

    def check(case):
        def request(req, v):
            req.answered = bool(case['responses'])
            if name == 'c14':
                module.request_model(req, v)
            elif name == 'c12':
                module.model(req, v)
            elif name != 'c13':
                module.request_model(req, v)

        def response(resp, req, v):
            if name != 'c12':
                module.model(resp, req, v)
        return judge(case, request, response)
    return Part(name, gen, check, cases)


PARTS = [part('c12', 8000), part('c13', 9000), part('c14', 9000), part('c15', 9000), part('c16', 6000), part('c17', 6000), part('c18', 9000),
         Part('spelling', props.c18.gen_spelling, check_spelling, 3000)]
