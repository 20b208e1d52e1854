"""C06: syntax errors point at the first byte that cannot be right."""
import re

import httpolice
from lib import abnf, grammar as gr, htmltree
from lib.core import Part, require, same, sut
from props import c05

PID = 'C06'
TECHNIQUE = 'grammar-based mutation, differential against viable prefixes and follow sets of an independent automaton'
NOTE = ('Random sampling over all known headers, arguments and start-line parts; the explanation is read back '
        'from the HTML report. Trusts lib/grammar.py.')
RULE = ('a value sampled from a grammar as in C05 and mutated; non-trivial when it is invalid, '
        'so that there is an explanation to compare')
ASSUMPTIONS = ['values with three or more opening parentheses are not compared (bounded comment depth)']

NAMES = {'tab': b'\t', 'LF': b'\n', 'CR': b'\r', 'space': b' ', 'double quote (")': b'"',
         "single quote (')": b"'", 'comma (,)': b',', 'period (.)': b'.', 'colon (:)': b':',
         'semicolon (;)': b';', 'dash (-)': b'-'}


def hexbyte(s):
    require(re.fullmatch('0x[0-9a-f]{2}', s), 'not a byte: %r', s)
    return int(s, 16)


def read_chars(text):
    """The set of bytes denoted by a description like 'A-Z or 0-9 or space or !#'."""
    r = set()
    for piece in text.split(' or '):
        if piece in NAMES:
            r.add(NAMES[piece][0])
        elif piece.startswith('0x') and len(piece) > 2:
            lo, _, hi = piece.partition('–')
            r.update(range(hexbyte(lo), (hexbyte(hi) if hi else hexbyte(lo)) + 1))
        elif len(piece) == 3 and piece[1] == '–':
            require(piece[0] < piece[2] and piece[0].isalnum() and piece[2].isalnum(),
                    'odd range %r', piece)
            r.update(range(ord(piece[0]), ord(piece[2]) + 1))
        elif len(piece) == 1:
            r.add(ord(piece))
        else:
            require(piece and all(0x21 <= ord(c) <= 0x7e and not c.isalnum() for c in piece),
                    'cannot understand %r in %r', piece, text)
            r.update(map(ord, piece))
    return r


def read_explanation(paras):
    """(offset, found, expected bytes, end of data expected)"""
    for i, para in enumerate(paras):
        m = re.fullmatch(r'Parse error at offset ([0-9]+)\.', para)
        if m:
            break
    require(m, 'no offset in %r', paras)
    paras = paras[i:]
    if paras[1] == 'Found end of data.':
        found = b''
    else:
        require(paras[1].startswith('Found: '), 'no found item in %r', paras)
        f = read_chars(paras[1][7:])
        require(len(f) == 1, 'found %r', paras[1])
        found = bytes(f)
    require(paras[2] == 'Expected:', 'no list of expected items: %r', paras)
    expected, end = set(), False
    for i, para in enumerate(paras[3:]):
        if i > 0:
            if not para.startswith('or '):
                break
            para = para[3:]
        chars = para.split(' as part of ')[0]
        if chars == 'end of data':
            end = True
        else:
            expected |= read_chars(chars)
    return int(m.group(1)), found, expected, end


def compare(what, expr, value, notices):
    _, n, follow, end = abnf.automaton(expr).scan(value)
    require(len(notices) == 1, '%s: %r is invalid, but there are %d explanations',
            what, value, len(notices))
    offset, found, expected, exp_end = read_explanation(notices[0].paras)
    head = '%s: %r' % (what, value)
    same(head + ': offset', n, offset)
    same(head + ': found', value[n:n + 1], found)
    wrong = bytes(sorted(expected - follow))
    require(not wrong, '%s: at offset %d these bytes are said to be possible, but are not: %r',
            head, n, wrong)
    missing = bytes(sorted(follow - expected))
    require(not missing, '%s: at offset %d these bytes are possible, but not said to be: %r',
            head, n, missing)
    same(head + ': end of data expected', end, exp_end)


def explain(exch, notice_id):
    sut('check_exchange', httpolice.check_exchange, exch)
    rep = htmltree.report([exch])
    return [n for b in rep.blocks for s in b.sections for n in s.notices if n.id == notice_id]


def gen_header(g):
    case = c05.gen_header(g)
    return case


def invalid(g, gen, ok):
    """Draw until invalid (a few times)."""
    for _ in range(4):
        case = gen(g)
        if not ok(case):
            return case
    return case


def header_ok(case):
    return abnf.automaton(gr.HEADERS[case['name']]).accepts(case['value'])


def check_header(case):
    name, value = case['name'], case['value']
    if value.count(b'(') > 2 or header_ok(case):
        return False, []
    if case['in_request']:
        exch = httpolice.Exchange(c05.request(headers=[(name, value)]), [])
    else:
        exch = httpolice.Exchange(None, [
            httpolice.Response('HTTP/1.1', 200, 'OK', [(name, value)], b'')])
    compare(name, gr.HEADERS[name], value, explain(exch, 1000))
    return True, [name]


def place_ok(case):
    try:
        raw = case['value'].encode('latin-1')
    except UnicodeError:
        return True
    return abnf.automaton(c05.PLACES[case['place']][0]).accepts(raw)


def check_place(case):
    place, value = case['place'], case['value']
    if place_ok(case) or (place == 'method' and value == 'CONNECT'):
        return False, []
    expr, notice = c05.PLACES[place]
    if place == 'method':
        exch = httpolice.Exchange(c05.request(method=value), [])
    elif place == 'target':
        exch = httpolice.Exchange(c05.request(target=value), [])
    elif place == 'name':
        exch = httpolice.Exchange(c05.request(headers=[(value, b'x')]), [])
    elif place == 'trailer name':
        exch = httpolice.Exchange(httpolice.Request(
            'http', 'POST', '/', 'HTTP/1.1', [('Transfer-Encoding', 'chunked')], b'',
            [(value, b'x')]), [])
    else:
        exch = httpolice.Exchange(None, [
            httpolice.Response('HTTP/1.1', 200, value, [], b'')])
    compare(place, expr, value.encode('latin-1'), explain(exch, notice))
    return True, [place]


def arg_ok(case):
    return abnf.automaton(gr.ARGS[case['header'], case['name']]).accepts(case['value'])


def check_arg(case):
    header, name, v = case['header'], case['name'], case['value']
    if arg_ok(case) or (header in ('Prefer', 'Preference-Applied') and v == b''):
        return False, []
    value = name.encode() + b'=' + c05.quote(v)
    if header == 'Link':
        value = b'<a>; ' + value
    elif header == 'Alt-Svc':
        value = b'h2=":1"; ' + value
    if header in ('Prefer', 'Forwarded'):
        exch = httpolice.Exchange(c05.request(headers=[(header, value)]), [])
    else:
        exch = httpolice.Exchange(None, [
            httpolice.Response('HTTP/1.1', 200, 'OK', [(header, value)], b'')])
    compare('%s in %s' % (name, header), gr.ARGS[header, name], v, explain(exch, 1158))
    return True, ['%s %s' % (header, name)]


PARTS = [
    Part('header', lambda g: invalid(g, gen_header, header_ok), check_header, 9000),
    Part('place', lambda g: invalid(g, c05.gen_place, place_ok), check_place, 2500),
    Part('arg', lambda g: invalid(g, c05.gen_arg, arg_ok), check_arg, 2500),
]
