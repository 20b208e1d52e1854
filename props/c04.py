"""C04: broken HTTP/1.x framing is flagged where it breaks, and never misread."""
import os
import re
import tempfile

from httpolice import inputs
from lib import htmltree, wire
from lib.core import HarnessError, Part, Violation, require, same, sut
from lib.wild import UNAVAILABLE

PID = 'C04'
TECHNIQUE = 'fault injection: random well-formed connections with one break at a known place; oracle: what a reader must then yield'
NOTE = 'One break per connection; bodies over 1 GiB are only announced, not sent.'
RULE = ('connections of 1-4 exchanges with one break of 21 kinds (or a tolerated irregularity) in a random message and line; '
        'non-trivial when the break could be applied')
ASSUMPTIONS = ['after a break on the inbound side the remaining responses are not responses to HEAD or CONNECT']

KINDS = ['junk-start', 'junk-header', 'junk-size', 'junk-chunk-end', 'junk-trailer', 'cut', 'cut', 'cut', 'long', 'te-unknown',
         'te-corrupt', 'te-double', 'te-open', 'cl-bad', 'cl-huge', 'chunk-huge', 'lf', 'fold', 'fold-trailer', 'odd-name', 'odd-name-trailer', 'surplus',
         'missing', 'swap', 'switch']
REQ_JUNK = [b'', b'GET /', b'GET / HTTP/1.1 ', b'GET  / HTTP/1.1', b'GET / HTTP/1', b'GET / HTTP/11', b'GET / HTTP/1.10',
            b'GET / http/1.1', b'GET / HTTP/1.1 x', b' GET / HTTP/1.1', b'GET /a b HTTP/1.1', b'\x16\x03\x01', b'HTTP/1.1 200 OK',
            b'GET / HTTP/x.1', b'GET\t/\tHTTP/1.1', b'GET / HTTPS/1.1', b'GET / HTTP/1.1\r', b'GET / HTTP/-1.1', b'GET /\xa0HTTP/1.1']
RESP_JUNK = [b'', b'HTTP/1.1 200', b'HTTP/1.1 20 OK', b'HTTP/1.1 2000 OK', b'HTTP/1.1  200 OK', b'http/1.1 200 OK',
             b'HTTP/1 200 OK', b'200 OK', b'GET / HTTP/1.1', b'HTTP/1.1 abc OK', b'HTTP/1.1 +20 OK', b'HTTP/1.1 2\xb20 OK',
             b'ICY 200 OK', b' HTTP/1.1 200 OK', b'HTTP/1.1', b'HTTP/1.1\t200\tOK', b'HTTP/1.1 -20 OK', b'HTTP/1.1 200\xa0OK',
             b'HTTP/1.1 0x1 OK']
HEADER_JUNK = [b'foo', b'foo bar', b'(', b'\x00', b'GET / HTTP/1.1', b'=', b'Host; a', b'\xff', b'"', b'Content-Length 5']
SIZE_JUNK = [b'', b'x', b'-1', b'+1', b'0x1', b'5_0', b' 5', b'5 5', b'g', b'\xb2', b';', b'1.0', b';5', b'5:', b'\t5', b'"5"',
             b'-0', b'hello', b'\xb9']
END_JUNK = [b'x', b' ', b'\r', b'0', b'5', b'a: b', b'\x00']


def gen(g):
    conn = wire.gen_connection(g, switch=False, heads=False)
    kind = g.choice(KINDS)
    side = g.int(0, 1)
    reqs, resps = wire.flatten(conn)
    idx = g.int(0, len((reqs, resps)[side]) - 1)
    m = (reqs, resps)[side][idx][1]
    b = {'kind': kind, 'side': side, 'index': idx, 'piece': g.int(0, 30), 'junk': g.int(0, 40), 'cut': g.int(0, 60),
         'lf': g.some([0, 1, 2, 3, 4, 5, 6, 7, 8, 9], 30)}
    if kind in ('junk-size', 'junk-chunk-end', 'junk-trailer', 'chunk-huge', 'te-unknown', 'te-corrupt', 'te-double',
                'fold-trailer', 'odd-name-trailer') or kind == 'lf' and g.bool():
        if not m.get('no_body'):
            m['framing'], m['te'] = 'chunked', []
            m['data'] = m['data'] or b'foo bar'
            m['trailers'] = m['trailers'] or [('X-T', b'a')]
    if kind == 'te-unknown':
        m['te_override'] = g.choice([['foo', 'chunked'], ['gzip', 'foo', 'chunked'], ['identity', 'chunked'], ['br', 'chunked'],
                                     ['compress', 'chunked'], ['foo', 'bar', 'chunked']])
    elif kind == 'te-corrupt':
        m['te'] = g.choice([['gzip'], ['deflate'], ['gzip', 'deflate'], ['x-gzip']])
        m['raw'] = g.choice([b'garbage', b'\x1f\x8b\x08', b'\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\x03', b'\x00'])
    elif kind == 'te-double':
        m['te_override'] = g.choice([['chunked', 'chunked'], ['gzip', 'chunked', 'chunked'], ['chunked', 'chunked', 'chunked']])
    elif kind == 'te-open':
        m['framing'], m['te'], m['trailers'] = 'close', [], []
        m['te_override'] = g.choice([['gzip'], ['chunked', 'gzip'], ['foo'], ['chunked', 'foo']])
        m['raw'] = wire.compress('gzip', m['data'])
        if side == 1 and not m.get('no_body') and not m['data']:
            m['data'] = b'x'
    elif kind == 'switch':
        e = g.choice(conn['exchanges'])
        p = e['responses'][-1]
        b['side'], b['index'] = 1, [id(x) for _, x in resps].index(id(p))
        p.update(framing='none', data=b'', te=[], trailers=[], no_body=True, extra_cl=False)
        if g.bool():
            p['status'] = 101
        else:
            e['request']['method'], p['status'] = 'CONNECT', g.choice([200, 204, 299])
    elif kind == 'cl-bad':
        m['framing'], m['te'], m['trailers'] = 'cl', [], []
        m['cl_override'] = g.choice([b'abc', b'-1', b'1.5', b'', b'1 1', b'+5', b'5;', b'0x5', b'\xb2', b'1_0'])
    elif kind == 'cl-huge':
        m['framing'], m['te'], m['trailers'] = 'cl', [], []
        m['cl_override'] = g.choice([b'1073741825', b'9' * 20, b'4294967296', b'9' * 5000, b'00001073741825'])
    elif kind == 'cut' and g.bool(30) and not m.get('no_body'):
        m['framing'], m['te'], m['trailers'], m['extra_cl'] = 'cl', [], [], False
        m['data'] = m['data'] or b'foo bar'
    return {'conn': conn, 'break': b}


class Lost(Exception):
    """The break does not apply to this message."""


def lay_out(side, brk, is_req):
    """[(message, start, pieces with offsets, outcome)], data.

    An outcome is ('ok', ids, stop, changes) or ('heading', stop, error position)."""
    out, data, pos = [], b'', 0
    cut_at = None
    for n, (key, m) in enumerate(side):
        ps = wire.pieces(m)
        want = wire.want(m, is_req)
        start = pos
        outcome = None
        if brk is not None and n == brk['index']:
            outcome, ps, want, cut_at = apply(m, ps, want, brk, pos, is_req, n == len(side) - 1)
        chunk = wire.join(ps)
        out.append({'key': key, 'start': start, 'end': start + len(chunk), 'want': want, 'm': m,
                    'outcome': outcome or {'kind': 'ok', 'stop': None}})
        data += chunk
        pos += len(chunk)
        if cut_at is not None:
            data = data[:cut_at]
            if outcome['kind'] == 'gone':
                out.pop()
            break
    return out, data


def apply(m, ps, want, b, pos, is_req, last):
    kind, want = b['kind'], dict(want)
    offsets, p = [], pos
    for _, x in ps:
        offsets.append(p)
        p += len(x)
    body_start = [o + len(x) for o, (k, x) in zip(offsets, ps) if k == 'blank'][0]

    def pick(*kinds):
        c = [i for i, (k, _) in enumerate(ps) if k in kinds]
        if not c:
            raise Lost()
        return c[b['piece'] % len(c)]

    def bad_line(i, line):
        """Replace a line; the reader stops after it."""
        k = ps[i][0]
        ps[i] = (k, line + b'\r\n')
        return broken(k, offsets[i], offsets[i] + len(line) + 2)

    def broken(k, err, stop):
        if k in ('start', 'header', 'blank'):
            return {'kind': 'heading', 'stop': stop, 'err': err}
        want.update(body=UNAVAILABLE, ids=[1005], trailers=[])
        return {'kind': 'ok', 'stop': stop, 'err': err}

    def junk(pool):
        return pool[b['junk'] % len(pool)]

    if kind == 'junk-start':
        return bad_line(0, junk(REQ_JUNK if is_req else RESP_JUNK)), ps, want, None
    if kind == 'junk-header':
        i = pick('header', 'blank')
        ps.insert(i, ('header', junk(HEADER_JUNK) + b'\r\n'))
        return {'kind': 'heading', 'stop': offsets[i] + len(ps[i][1]), 'err': offsets[i]}, ps, want, None
    if kind == 'junk-size':
        return bad_line(pick('size', 'last'), junk(SIZE_JUNK)), ps, want, None
    if kind == 'junk-chunk-end':
        return bad_line(pick('chunk-end'), junk(END_JUNK)), ps, want, None
    if kind == 'junk-trailer':
        i = pick('trailer', 'end')
        ps.insert(i, ('trailer', junk(HEADER_JUNK) + b'\r\n'))
        return broken('trailer', offsets[i], offsets[i] + len(ps[i][1])), ps, want, None
    if kind == 'cut':
        if m['framing'] == 'close' and not m.get('no_body'):
            raise Lost()
        i = pick(*{k for k, _ in ps})
        k, x = ps[i]
        n = b['cut'] % len(x)
        cut = offsets[i] + n
        if k == 'start' and n == 0:
            if pos == 0:
                return {'kind': 'heading', 'stop': 0, 'err': 0}, ps, want, cut
            return {'kind': 'gone', 'stop': None}, ps, want, cut
        if k == 'data':
            want.update(body=UNAVAILABLE, ids=[1004])
            return {'kind': 'ok', 'stop': cut, 'size': len(x)}, ps, want, cut
        return broken(k, offsets[i], cut), ps, want, cut
    if kind == 'long':
        i = pick('start', 'header', 'size', 'last', 'trailer')
        k, x = ps[i]
        over = wire.MAX_LINE - len(x) + 1 + b['cut'] * (b['junk'] % 2)
        fill = b'z' * over
        body = x[:-2]
        if k == 'start':
            line = body.replace(b' ', b' ' + fill, 1) if is_req else body + fill
        elif k in ('header', 'trailer'):
            line = body + fill
        else:
            line = body + (fill if b';' in body else b';' + fill)
        ps[i] = (k, line + b'\r\n')
        return broken(k, offsets[i], offsets[i] + wire.MAX_LINE), ps, want, None
    if kind == 'te-unknown':
        if m['framing'] != 'chunked' or m.get('no_body'):
            raise Lost()
        want.update(body=UNAVAILABLE, ids=[1003])
        return {'kind': 'ok', 'stop': None}, ps, want, None
    if kind == 'te-corrupt':
        if m['framing'] != 'chunked' or m.get('no_body'):
            raise Lost()
        want.update(body=UNAVAILABLE, ids=[1027])
        return {'kind': 'ok', 'stop': None}, ps, want, None
    if kind == 'te-double':
        if m['framing'] != 'chunked' or m.get('no_body'):
            raise Lost()
        want.update(body=UNAVAILABLE, ids=[1002])
        return {'kind': 'ok', 'stop': None}, ps, want, None
    if kind == 'te-open':
        if not is_req:
            # Delimited by the end of the connection.
            if not last or m.get('no_body') or m['te_override'] == ['gzip']:
                raise Lost()
            want.update(body=UNAVAILABLE, ids=[1002] if 'gzip' in m['te_override'] else [1003])
            return {'kind': 'ok', 'stop': None}, ps, want, None
        want.update(body=UNAVAILABLE, ids=[1001])
        return {'kind': 'ok', 'stop': body_start}, ps, want, None
    if kind == 'switch':
        want['ids'] = [1011 if m['status'] == 101 else 1012]
        return {'kind': 'ok', 'stop': body_start, 'switch': True}, ps, want, None
    if kind in ('cl-bad', 'cl-huge'):
        if m.get('no_body'):
            raise Lost()
        want.update(body=UNAVAILABLE, ids=[1298] if kind == 'cl-huge' else [])
        return {'kind': 'ok', 'stop': body_start}, ps, want, None
    if kind == 'chunk-huge':
        i = pick('size')
        before = sum(len(x) for k, x in ps[:i] if k == 'chunk')     # too big only together with the previous chunks
        line = [b'40000001', b'F' * 20, b'7FFFFFFFFFFFFFFF', b'8000000000000000;a', b'00000000040000001',
                b'%X' % (2 ** 30 - before + 1), b'%x;a=b' % (2 ** 30 - before + 1)][b['junk'] % 7]
        ps[i] = ('size', line + b'\r\n')
        want.update(body=UNAVAILABLE, ids=[1298], trailers=[])
        return {'kind': 'ok', 'stop': offsets[i] + len(line) + 2}, ps, want, None
    def bare_lf():
        ids = set()
        lines = [i for i, (k, x) in enumerate(ps) if k not in ('data', 'chunk') and x[-3:-2] != b'\r' and x[-2:-1] == b'\r']
        for j in b['lf']:
            if j < len(lines):
                k, x = ps[lines[j]]
                ps[lines[j]] = (k, x[:-2] + b'\n')
                ids.add(k in ('start', 'header', 'blank'))
        return [1224] * len(ids)

    if kind == 'lf':
        want['ids'] = bare_lf()
        if not want['ids']:
            raise Lost()
        return {'kind': 'ok', 'stop': None}, ps, want, None
    if kind in ('fold', 'fold-trailer'):
        part = 'headers' if kind == 'fold' else 'trailers'
        i = pick('header', 'blank') if kind == 'fold' else pick('trailer', 'end')
        n = i - 1 if kind == 'fold' else i - [j for j, (k, _) in enumerate(ps) if k == 'last'][0] - 1
        raw, value = [(b'a\r\n \t b\r\n\tc', b'a b c'), (b'a\r\n b', b'a b'), (b'\r\n a:b', b'a:b'), (b'a\r\n\t\t', b'a'),
                      (b'"a\r\n b"', b'"a b"'), (b'a,\r\n b,\r\n c', b'a, b, c')][b['junk'] % 6]
        ps.insert(i, ('header' if kind == 'fold' else 'trailer', b'X-Fold: ' + raw + b'\r\n'))
        want[part] = list(want[part])
        want[part].insert(n, ('X-Fold', value))
        want['ids'] = [1016] + (bare_lf() if b['cut'] % 2 else [])
        return {'kind': 'ok', 'stop': None}, ps, want, None
    if kind in ('odd-name', 'odd-name-trailer'):
        # Not a correct name, but it is clear where it ends.
        part = 'headers' if kind == 'odd-name' else 'trailers'
        i = pick('header', 'blank') if kind == 'odd-name' else pick('trailer', 'end')
        n = i - 1 if kind == 'odd-name' else i - [j for j, (k, _) in enumerate(ps) if k == 'last'][0] - 1
        name = [b'', b'a b', b'X-A ', b'(c)', b'\xff', b'"a"', b'a;b', b'\x00', b'GET / HTTP/1.1', b'HTTP/1.1 200 OK', b'5;a',
                b'\x85', b'0'][b['junk'] % 13]
        ps.insert(i, ('header', name + b': b:c\r\n'))
        want[part] = list(want[part])
        want[part].insert(n, (name.decode('iso-8859-1'), b'b:c'))
        return {'kind': 'ok', 'stop': None}, ps, want, None
    raise HarnessError(kind)


def simulate(reqs, inb, resps, outb):
    """What a reader must yield: [('exchange', [(side, item)])] and [('box', id, offset)]."""
    out = []
    st = {'next': 0, 'alive': True, 'stop': None}

    def take():
        """Responses to one request."""
        got, box = [], None
        while st['alive'] and (st['next'] < len(resps) or (not outb and st['next'] == 0)):
            r = resps[st['next']] if resps else {'outcome': {'kind': 'heading', 'stop': 0, 'err': 0}}
            st['next'] += 1
            o = r['outcome']
            if o['kind'] == 'heading':
                st['alive'], st['stop'] = False, o['stop']
                box = ('box', 1009, o['err'])
                break
            got.append((1, r))
            if o['stop'] is not None:
                st['alive'], st['stop'] = False, o['stop']
            if r['m']['status'] >= 200 or r['m']['status'] == 101:
                break
        return got, box

    in_stop = None
    if not reqs and not inb:
        out.append(('box', 1006, 0))
    for q in reqs:
        o = q['outcome']
        if o['kind'] == 'heading':
            out.append(('box', 1006, o['err']))
            in_stop = o['stop']
            break
        got, box = take()
        out.append(('exchange', [(0, q)] + got))
        if box:
            out.append(box)
        if got and got[-1][1]['outcome'].get('switch'):
            in_stop = q['end']
            break
        if o['stop'] is not None:
            in_stop = o['stop']
            break
    if in_stop is not None and in_stop < len(inb):
        out.append(('box', 1007, in_stop))
    if st['alive'] and (st['next'] < len(resps) or not outb):
        out.append(('box', 1008, None))
        while st['alive'] and (st['next'] < len(resps) or (not outb and st['next'] == 0)):
            got, box = take()
            if got:
                out.append(('exchange', got))
            if box:
                out.append(box)
    if st['stop'] is not None and st['stop'] < len(outb):
        out.append(('box', 1010, st['stop']))
    return out


def check(case):
    conn, b = case['conn'], case['break']
    exs = [dict(e) for e in conn['exchanges']]
    brk = [None, None]
    if b['kind'] == 'surplus':
        for e in exs[b['piece'] % len(exs):]:
            e['request'] = None
    elif b['kind'] == 'missing':
        k = b['piece'] % len(exs)
        for e in exs[k + 1:]:
            e['responses'] = []
        n = b['cut'] % (len(exs[k]['responses']) + 1)
        exs[k] = dict(exs[k], responses=exs[k]['responses'][:n])
    elif b['kind'] != 'swap':
        brk[b['side']] = b
    reqs, resps = wire.flatten({'exchanges': exs})
    try:
        reqs, inb = lay_out(reqs, brk[0], True)
        resps, outb = lay_out(resps, brk[1], False)
    except Lost:
        return False, ['not applicable: ' + b['kind']]
    if b['kind'] == 'swap':
        # Both streams in the wrong place.
        inb, outb = outb, inb
        first = [wire.pieces(r[0]['m'])[0][1] for r in (resps, reqs)]
        reqs = [{'outcome': {'kind': 'heading', 'stop': len(first[0]), 'err': 0}}]
        resps = [{'outcome': {'kind': 'heading', 'stop': len(first[1]), 'err': 0}}]
        if any(f.count(b' ') == 2 and f.split(b' ')[2].startswith(b'HTTP/') for f in first[:1]):
            return False, ['not applicable: swap']
    expected = simulate(reqs, inb, resps, outb)
    with tempfile.TemporaryDirectory(prefix='c04-') as d:
        names = [os.path.join(d, 'IN'), os.path.join(d, 'OUT')]
        for name, data in zip(names, (inb, outb)):
            with open(name, 'wb') as f:
                f.write(data)
        result = sut('reading', lambda: list(inputs.formats['streams'](names)))
    blocks = htmltree.report(result).blocks
    require(len(blocks) == len(result), 'blocks in the report')
    shape = [('exchange', x.request is not None, len(x.responses)) if x.request is not None or x.responses
             else ('box', [n.id for n in x.notices]) for x in result]
    want_shape = [('exchange', e[1][0][0] == 0, len([s for s, _ in e[1] if s == 1])) if e[0] == 'exchange'
                  else ('box', [e[1]]) for e in expected]
    same('exchanges and boxes after %s' % b['kind'], want_shape, shape)
    for e, x, block in zip(expected, result, blocks):
        if e[0] == 'box':
            text = ' '.join(block.notices[0].paras)
            ours = names[0] if e[1] in (1006, 1007) else names[1]
            other = names[1] if e[1] in (1006, 1007) else names[0]
            require(ours in text and other not in text, 'no. %d is about the wrong stream: %s', e[1], text)
            if e[2] is not None:
                found = re.findall(r'(?:offset|byte) (\d+)', text.replace(ours, ''))
                same('offset in no. %d' % e[1], [str(e[2])], found[:1])
            continue
        require(not x.notices, 'unexpected notices on an exchange')
        msgs = ([x.request] if x.request is not None else []) + x.responses
        for (side, item), msg, section in zip(e[1], msgs, block.sections):
            w, got = item['want'], wire.got(msg, side == 0)
            if w != got:
                raise Violation('message %s at %d, with %r\n%s' % (item['key'], item['start'], b, '\n'.join(
                    '  %s\n    expected: %.500r\n    actual:   %.500r' % (k, w[k], got[k]) for k in w if w[k] != got[k])))
            if 1005 in w['ids']:
                [n] = [n for n in section.notices if n.id == 1005]
                found = re.findall(r'offset (\d+)', ' '.join(n.paras).replace(names[side], ''))
                same('offset in no. 1005', str(item['outcome']['err']), found[0] if found else None)
            if 1004 in w['ids']:
                [n] = [n for n in section.notices if n.id == 1004]
                text = ' '.join(n.paras)
                require(re.search(r'\b%d bytes' % item['outcome']['size'], text) and names[side] in text, 'no. 1004 says %s', text)
    texts = [' '.join(n.paras) for block in blocks for part in [block] + list(block.sections) for n in part.notices if n.id in (1005, 1006, 1009)]
    long_ = [t for t in texts if re.search(r'no more than %d bytes' % wire.MAX_LINE, t)]
    same('notices that say a line is too long', 1 if b['kind'] == 'long' else 0, len(long_))
    return True, [b['kind'], 'inbound' if not b['side'] else 'outbound']


PARTS = [Part('breaks', gen, check, 7000)]
