"""Exchanges derived from a corpus that makes nearly every notice appear, by mutation and crossover."""
import ast
import os
import re

from lib import proto, wild
from lib.strings import mutate

_CORPUS = []


def corpus():
    if not _CORPUS:
        path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                            'corpus', 'exchanges.txt')
        with open(path) as f:
            _CORPUS.extend(ast.literal_eval(line) for line in f)
    return _CORPUS


def copy(msg):
    r = dict(msg)
    r['headers'] = list(msg['headers'])
    if msg['trailers']:
        r['trailers'] = list(msg['trailers'])
    return r


_TYPED = []


def _typed():
    """The generators of the checks whose exchanges are about the rules of particular fields, methods and statuses."""
    if not _TYPED:
        from props import c12, c13, c14, c15, c16, c17, c18
        _TYPED.extend([c12.gen, c13.gen, c14.gen, c14.gen, c14.gen_method, c14.gen_uri, c14.gen_upgrade, c14.gen_prefer, c15.gen, c15.gen_directives,
                       c15.gen_immutable, c15.gen_stale, c16.gen_conditional, c16.gen_ranges, c16.gen_values, c16.gen_ignored, c17.gen, c18.gen, c18.gen,
                       c18.gen_repeated])
    return _TYPED


REQUEST = ('scheme', 'method', 'target', 'version', 'headers', 'body', 'trailers')
RESPONSE = ('version', 'status', 'reason', 'headers', 'body', 'trailers')


def typed(g):
    """An exchange whose parts belong together."""
    c = proto.plain(g.choice(_typed())(g))
    if not c['request'] and not c['responses']:
        return {'request': copy(g.choice([x for x in corpus() if x['request']])['request']), 'responses': []}
    return {'request': c['request'] and {k: c['request'][k] for k in REQUEST},
            'responses': [{k: r[k] for k in RESPONSE} for r in c['responses']]}


def base(g):
    if g.bool(45):
        return typed(g)
    c = g.choice(corpus())
    return {'request': copy(c['request']) if c['request'] else None,
            'responses': [copy(r) for r in c['responses']]}


def repeated(g, v):
    """The value with some of its elements repeated, moved or emptied."""
    for _ in range(g.int(1, 3)):
        seps = [s for s in (b',', b';', b' ') if s in v]
        if not seps:
            return v + g.choice([b', ', b';', b' ', b',,']) + v
        sep = g.choice(seps)
        pieces = v.split(sep)
        i, j = g.int(0, len(pieces) - 1), g.int(0, len(pieces))
        k = g.int(0, 4)
        if k <= 1:
            pieces.insert(j, pieces[i])
        elif k == 2:
            pieces.insert(j, pieces.pop(i))
        elif k == 3:
            pieces.insert(j, g.choice([b'', b' ', b'a=b', b' x']))
        else:
            pieces.insert(j, re.sub(b'=.*', b'=' + g.choice([b'x', b'""', b'1', b'"a b"']), pieces[i], flags=re.S))
        v = sep.join(pieces)
    return v


def messages(case):
    return ([case['request']] if case['request'] else []) + case['responses']


def _change(g, case, is_req, msg):
    hdrs = msg['headers']
    k = g.int(0, 19)
    if (k <= 2 or k == 16) and hdrs:
        i = g.int(0, len(hdrs) - 1)
        n, v = hdrs[i]
        if isinstance(v, str):
            v = v.encode('latin-1', 'replace')
        hdrs[i] = (n, mutate(g, v) if k <= 2 else repeated(g, v))
    elif k == 17:
        hdrs.insert(g.int(0, len(hdrs)), proto.noise(g)[:2])
    elif k == 18 and hdrs:
        i = g.int(0, len(hdrs) - 1)
        n = proto.LOWER.get(hdrs[i][0].lower(), hdrs[i][0])
        hdrs[i] = proto.field(g, n, 5)[:2]
    elif k == 19:
        hdrs.insert(g.int(0, len(hdrs)), proto.field(g, g.choice(sorted(proto.GENS)), 5)[:2])
    elif k <= 4 and hdrs:
        i = g.int(0, len(hdrs) - 1)
        hdrs[i] = (hdrs[i][0], wild.value(g, hdrs[i][0]))
    elif k <= 6:
        hdrs.insert(g.int(0, len(hdrs)), wild.header(g))
    elif k <= 9:
        other = g.choice(corpus())
        donor = other['request'] if is_req else (other['responses'] or [None])[0]
        if donor and donor['headers']:
            hdrs.insert(g.int(0, len(hdrs)), g.choice(donor['headers']))
    elif k == 10 and hdrs:
        del hdrs[g.int(0, len(hdrs) - 1)]
    elif k == 11:
        msg['body'] = wild.body(g, hdrs)
    elif k == 12:
        msg['version'] = g.choice(['HTTP/1.1', 'HTTP/1.0', 'HTTP/2', None])
    elif k == 13:
        if is_req:
            which = g.int(0, 2)
            if which == 0:
                msg['method'] = g.choice(wild.METHODS[:12])
            elif which == 1:
                msg['target'] = g.choice(wild.TARGETS[:12])
            else:
                msg['scheme'] = g.choice(wild.SCHEMES[:3])
        else:
            msg['status'] = g.choice(wild.STATUSES[:-8])
    elif k == 14:
        msg['trailers'] = g.list(lambda: wild.header(g), 0, 2)
    elif not is_req:
        msg['reason'] = g.choice(wild.REASONS)
    elif case['request']:
        other = g.choice(corpus())
        if other['responses']:
            case['responses'] = [copy(r) for r in other['responses']]


def exchange(g, hi=4):
    case = base(g)
    for _ in range(g.int(0, hi)):
        msgs = messages(case)
        i = g.int(0, len(msgs) - 1)
        _change(g, case, msgs[i] is case['request'], msgs[i])
    return case


def tame(g):
    """A corpus exchange, with at most headers and responses exchanged between valid ones."""
    case = base(g)
    for _ in range(g.int(0, 2)):
        msgs = messages(case)
        msg = msgs[g.int(0, len(msgs) - 1)]
        is_req = msg is case['request']
        other = g.choice(corpus())
        donor = other['request'] if is_req else (other['responses'] or [None])[0]
        if donor and donor['headers']:
            msg['headers'].insert(g.int(0, len(msg['headers'])), g.choice(donor['headers']))
    return case
