"""C10: payload verdicts follow from the payload and its declared media type."""
import codecs
import collections
import json

import httpolice
from lib import payload, wild
from lib.core import HarnessError, Part, require, same, sut
from lib.wild import UNAVAILABLE

PID = 'C10'
TECHNIQUE = ('generated payloads (built valid, built broken, or edited at random) in many encodings x media types and parameters x '
             'statuses and methods; oracle: independent recognisers of JSON, XML, multipart delimiters and form characters')
NOTE = ('Random sampling. Not generated, because no verdict is promised: JSON nested hundreds of levels deep or with numbers of '
        'thousands of digits or preceded by a byte order mark; namespace prefixes in XML, XML in UTF-32, entity declarations combined with errors '
        'elsewhere; repeated charset and boundary parameters; absent bodies of requests. Exceptions for entity expansion are decided by '
        'fixed forms of DTD.')
RULE = ('payload language x valid / broken / edited x encoding and charset x Content-Type spelling x message kind; non-trivial when '
        'the payload is complete and judged by a recogniser, or some Content-Type notice is due')

OWN = {1035, 1038, 1039, 1040, 1042, 1139, 1140, 1275, 1280, 1281}
DEPRECATED = {'application/font-sfnt', 'application/font-woff', 'application/smil', 'image/x-emf', 'image/x-wmf', 'message/news',
              'text/directory', 'text/ecmascript', 'text/javascript'}
JSON_TYPES = ['application/json', 'application/json', 'application/problem+json', 'application/json-patch+json', 'text/x+json',
              'application/geo+json', 'application/merge-patch+json', 'application/vnd.a.b-c+json', 'image/foo+json']
XML_TYPES = ['application/xml', 'text/xml', 'application/xml', 'application/atom+xml', 'image/svg+xml', 'text/a+xml', 'application/x+xml',
             'application/smil+xml']
MULTIPART_TYPES = ['multipart/mixed', 'multipart/form-data', 'multipart/byteranges', 'multipart/x-foo', 'multipart/related']
FORM_TYPE = 'application/x-www-form-urlencoded'
OTHER_TYPES = ['text/plain', 'application/octet-stream', 'text/html', 'application/json-seq', 'application/xml-dtd', 'application/jsonx',
               'application/x-json', 'text/x-json', 'xml/application', 'multipartx/mixed', 'application/x-www-form-urlencoded2',
               'application/x.json', 'application/xhtml', 'application/www-form-urlencoded', 'application/geo+json-seq',
               'message/http'] + sorted(DEPRECATED)


# ------------------------------------------------------------------ payloads

JSON_ALPHABET = '{}[]",:0123456789.-+eE\\/utrfalsn\t\n \x00\x1f\x7f\u00a0éNI\'x_'


def edit(g, s, alphabet, n):
    for _ in range(n):
        i = g.int(0, len(s))
        k = g.int(0, 3)
        if k == 0:
            s = s[:i] + s[i + 1:]
        elif k == 1:
            s = s[:i] + g.choice(alphabet) + s[i:]
        elif k == 2:
            s = s[:i] + g.choice(alphabet) + s[i + 1:]
        else:
            j = min(len(s), i + g.int(1, 4))
            s = s[:j] + s[i:]
    return s


def json_value(g, depth=3):
    k = g.int(0, 11)
    if depth and k < 3:
        return [json_value(g, depth - 1) for _ in range(g.int(0, 3))]
    if depth and k < 6:
        return {g.string('ab"\\é/\n', 0, 3): json_value(g, depth - 1) for _ in range(g.int(0, 3))}
    if k < 9:
        return g.string('ab"\\é/\n\t\x00\x1f\x7f\u2028ж\U0001f600', 0, 5)
    return g.choice([0, -1, 1, 10, 123456789012345678901234567890, 1.5, -0.0, 1e100, 1e-7, True, False, None])


JSON_ODD = ['NaN', 'Infinity', '-Infinity', '01', '-', '1.', '.5', '+1', '1e', '1e+', '0x1', "'a'", '{a: 1}', '[1,]', '{"a":1,}', '[,1]',
            '"\\x41"', '"\\u12g4"', '"\\u12"', '"\t"', '"\n"', '"a', 'tru', 'TRUE', 'null', 'nullx', '[1 2]', '{"a" 1}', '{"a"}', '{1:2}',
            '[] []', '"" ""', '//a\n1', '/* */1', '\x0b1', '\xa01', '1\x00', '[1]\x0c', '-0', '-0.0e-0', '1E400', '"\\ud800"', '"\\/"',
            '"\x7f"', '{"a":1,"a":2}', '[[[[]]]]', '', ' ', '\n', '-a', '--1', '1.e1', '1e1.5', '00', '-01', '"\\"', '"\u2028"', '[}', '1,2',
            '{"":[]}', '0e0', '0.0', '1_000', '１', '"\\U0041"', 'None', 'True', '[nan]', '"\x1f"', '[1,,2]', '{,}', ':', '"a":1']


def gen_json(g):
    k = g.int(0, 9)
    if k < 3:
        s = g.choice(JSON_ODD)
    else:
        seps = g.choice([(',', ':'), (', ', ': '), (' ,\n', '\t:\r\n')])
        s = json.dumps(json_value(g), indent=g.choice([None, None, 2]), separators=seps, ensure_ascii=g.bool())
        s = g.choice(['', '', ' ', '\n\t']) + s + g.choice(['', '', '\r\n', ' '])
    if g.bool(50):
        s = edit(g, s, JSON_ALPHABET, g.int(1, 2))
    return s


XML_TEXT = ['', 'a', ' ', '\n', 'é', 'ж', '&amp;', '&lt;', '&#65;', '&#x41;', ']]', '>', "'", '"', '&#x10FFFF;', '\x7f', '&quot;', '\t', ']',
            '\u2028', '\U0001f600', '&#xD7FF;', '&#9;']
NAMES = ['a', 'b', 'ab', 'A', '_x', 'a-b', 'a.1', 'жа', 'xmla', 'a_b']
DOCTYPES = [  # text, entities may be declared elsewhere, declares entities
    ('<!DOCTYPE a>', False, False), ('<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN" "http://a/x.dtd">', True, False),
    ('<!DOCTYPE a SYSTEM "a.dtd">', True, False), ('<!DOCTYPE a [<!ELEMENT a ANY>]>', False, False),
    ('<!DOCTYPE a [<!ATTLIST a b CDATA "c">]>', False, False), ('<!DOCTYPE a [<!-- <!ENTITY b "c"> -->]>', False, False),
    ('<!DOCTYPE a [<?x <!ENTITY b "c">?>]>', False, False), ('<!DOCTYPE a SYSTEM "x" [ <!ELEMENT b EMPTY> ]>', True, False),
    ('<!DOCTYPE a [<!NOTATION n SYSTEM "x">]>', False, False),
    ('<!DOCTYPE a [<!ENTITY b "c">]>', False, True), ('<!DOCTYPE a [<!ELEMENT a ANY><!ENTITY b SYSTEM "file:///c">]>', False, True),
    ('<!DOCTYPE a [<!ENTITY % b "c">]>', True, True), ('<!DOCTYPE a [\n<!ENTITY b PUBLIC "c" "d">\n]>', False, True),
    ('<!DOCTYPE a [<!NOTATION n SYSTEM "x"><!ENTITY b SYSTEM "u" NDATA n>]>', False, True)]
BREAKS = ['</a>', '<a>', '&', '&x', '&;', '<', '<a b=c/>', '<a b/>', '<a b="1" b="2"/>', '<a b="<"/>', '&#0;', '&#x1;', '&#xD800;', ']]>',
          '<!-- -- -->', '<!--->', '\x01', '<?xml?>', '<?XML a?>', '<a b="&"/>', '<a b="1"c="2"/>', '< a/>', '<a / >', '<1/>', '<a b=\'"/>',
          '<![CDATA[', '<!FOO>', '</ a>', '<??>', '<?1 ?>', '&#;', '&#x;', '&#A;', '<![cdata[]]>', '&#xFFFE;', '<a\x00/>', '&#1114112;',
          '<-/>', '&amp', '&lt', '<a b= />', '</A>', '\x0c', '<a></ab>', '<ab></a>']
HARMLESS = ['<!-- <!ENTITY b "c"> -->', '<![CDATA[<!ENTITY b "c">&<]]>', '<a b=\'"\'/>', '<a b = "1" c="2" />', '<?foo?>', '<?x-y <a> & ?>',
            '<a></a >', '<!---->', '<![CDATA[]]>', '<a b="\'>"/>', '<a b="]]>"/>', '<a\n/>', '<?xml-stylesheet href="a"?>', '&apos;&gt;', '<a B="1" b="2"/>']
XML_ALPHABET = '<>/&;"\'=! ?-[]ab#x1A\n\x00é'


def xml_element(g, depth=3):
    name = g.choice(NAMES)
    attrs = ''.join(g.choice([' ', '\n', '  ']) + n + g.choice(['=', ' = ']) + g.choice(['"1"', "'&lt;\"'", '""', '"é>"', "'&#10;'"])
                    for n in g.sample(NAMES, g.weighted([(5, 0), (3, 1), (2, 2)])))
    if g.bool(30):
        return '<%s%s%s/>' % (name, attrs, g.choice(['', ' ']))
    inner = ''
    for _ in range(g.int(0, 3)):
        k = g.int(0, 9)
        if k < 5 or not depth:
            inner += g.choice(XML_TEXT)
        elif k < 8:
            inner += xml_element(g, depth - 1)
        else:
            inner += g.choice(HARMLESS)
    return '<%s%s>%s</%s>' % (name, attrs, inner, name)


def gen_xml(g):
    """(text without its XML declaration, doctype index or None, standalone)"""
    misc = lambda: ''.join(g.choice(['\n', ' ', '<!-- a -->', '<?foo bar?>', '\r\n']) for _ in range(g.int(0, 2)))
    root = xml_element(g)
    dtd = g.int(0, len(DOCTYPES) - 1) if g.bool(30) else None
    if dtd is not None and g.bool(50):
        # An entity nobody seems to declare.
        i = root.find('>') + 1
        root = root[:i] + g.choice(['&nbsp;', '&b;', '<a b="&nbsp;"/>']) + root[i:] if not root[:i].endswith('/>') else root
    if g.bool(35):
        spots = [i + 1 for i, c in enumerate(root) if c == '>'] + [i for i, c in enumerate(root) if c == '<']
        i = g.choice(spots)
        root = root[:i] + g.choice(BREAKS + HARMLESS) + root[i:]
    if g.bool(15):
        root = g.choice([root + root, root + 'x', 'x' + root, '', ' ', root + '\x00', '\ufeff' + root, root[:-1], root[1:], root + '&#32;'])
    if g.bool(25):
        root = edit(g, root, XML_ALPHABET, g.int(1, 2))
    head = misc() + (DOCTYPES[dtd][0] if dtd is not None else '')
    return head + misc() + root + misc(), dtd, g.choice([None, None, None, 'yes', 'no'])


XML_CODECS = ['utf-8', 'iso-8859-1', 'us-ascii', 'windows-1251', 'koi8-r']


# What is in the parts is nobody's concern.
PART_HEADERS = ['Content-Type: multipart/mixed; boundary=y', 'Content-Type: multipart/mixed', 'Content-Type: message/rfc822', 'Content-Transfer-Encoding: base64',
                'Content-Type: text/plain; charset=x']


def gen_multipart(g):
    b = g.choice(['a', 'foo', '----WebKitFormBoundary7', 'a b', "a'()+_,-./:=?b", '=_1', 'x' * 70, 'A', '-'])
    lines = [g.choice(['', 'preamble', '--', '-- ' + b, '--' + b + 'x', ' --' + b, '--' + b[:-1], b, 'Content-Type: text/plain', '--' + b.swapcase(),
                       '--' + b + '--x', '\x80é', 'a: b', '--' + b + '- -'])
             for _ in range(g.int(0, 4))]
    if g.bool(70):
        lines.insert(g.int(0, len(lines)), '--' + b + g.choice(['', '', '', ' ', '\t ']))
        lines += [g.choice(['', 'X: y'] + PART_HEADERS), '', g.choice(['data', 'data', '--y', '--y--', 'a: b']), '--' + b + g.choice(['--', '--', '', '-- '])]
    elif g.bool():
        lines.append('--' + b + '--')
        if g.bool():
            lines.append('--' + b)
    return b, '\r\n'.join(lines) + g.choice(['', '\r\n'])


# ------------------------------------------------------------------ cases

CHARSETS = [None] * 6 + ['utf-8', 'UTF-8', 'us-ascii', 'iso-8859-1', 'windows-1251', 'utf-16', 'utf-16be', 'utf-32', 'koi8-r', 'shift_jis', 'foo',
                         'base64']


def gen(g):
    kind = g.weighted([(5, 'json'), (5, 'xml'), (3, 'multipart'), (2, 'form'), (2, 'other')])
    case = {'kind': kind, 'place': g.choice(['response'] * 4 + ['request', 'alone']), 'method': g.choice(['GET', 'GET', 'POST', 'HEAD', 'PUT']),
            'status': g.choice([200] * 6 + [206, 304, 404, 204, 103, 500, 205, 226]), 'version': g.choice(['HTTP/1.1', 'HTTP/2', 'HTTP/1.0', None]),
            'absent': g.choice(['no'] * 17 + ['unknown', 'unavailable', 'empty']), 'style': g.int(0, 5), 'dtd': None,
            'extra': [g.choice([('q', '1'), ('foo', 'a b'), ('foo', 'c'), ('FOO', 'd'), ('bar', ''), ('Q', '2'), ('profile', 'x"\\'),
                                ('charsets', 'x'), ('bounda', 'b')])
                      for _ in range(g.weighted([(6, 0), (2, 1), (2, 2), (1, 4)]))],
            'charset': g.choice(CHARSETS), 'repeat': g.bool(5), 'at': g.int(0, 4), 'gzip': g.bool(5)}
    if kind == 'json':
        case['type'], case['text'] = g.choice(JSON_TYPES), gen_json(g)
        if case['charset'] is not None and g.bool(15):
            case['as'] = 'utf-8'
    elif kind == 'xml':
        case['type'] = g.choice(XML_TYPES)
        case['text'], case['dtd'], case['standalone'] = gen_xml(g)
        if case['charset'] == 'utf-32':
            case['charset'] = 'utf-16be'
        case['how'] = g.choice(['plain', 'plain', 'decl', 'decl', 'bom', 'utf16', 'param', 'param', 'unknown', 'junk'])
        case['codec'] = g.choice(XML_CODECS)
    elif kind == 'multipart':
        case['type'] = g.choice(MULTIPART_TYPES)
        case['boundary'], case['text'] = gen_multipart(g)
        case['declared'] = g.bool(85)
    elif kind == 'form':
        case['type'] = FORM_TYPE
        case['text'] = g.string('ab01&=+%-._*', 0, 12)
        if g.bool(60):
            case['text'] = edit(g, case['text'], [chr(i) for i in range(128)] + ['é'], 1)
    else:
        case['type'] = g.choice(OTHER_TYPES)
        case['text'] = g.choice([gen_json(g), 'a b', '<a>', '--x', ''])
    if g.bool(8):
        case['type'] = g.choice(JSON_TYPES + XML_TYPES + [FORM_TYPE] + OTHER_TYPES)
    if case['style'] == 1:
        case['type'] = case['type'].upper()
    elif case['style'] == 2:
        case['type'] = case['type'].title()
    return case


def quoted(v):
    return '"' + v.replace('\\', '\\\\').replace('"', '\\"') + '"'


TOKEN = set("!#$%&'*+-.^_`|~0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz")


def decl(encoding, standalone):
    return '<?xml version="1.0"%s%s?>' % (" encoding='%s'" % encoding if encoding else '',
                                          ' standalone="%s"' % standalone if standalone else '')


def xml_bytes(case, charset):
    """(body, declared charset, verdict or None)"""
    text, how, codec, alone = case['text'], case['how'], case['codec'], case['standalone']
    head = decl(None, alone) if alone else ''
    if how in ('decl', 'param', 'junk', 'plain') and '\ufeff' in text:
        text = text.replace('\ufeff', '')
    if how == 'plain' or how == 'junk' and case['dtd'] is not None and DOCTYPES[case['dtd']][2]:
        return (head + text).encode(), None, head + text
    if how == 'junk' and not (case['dtd'] is not None and DOCTYPES[case['dtd']][2]):
        # Not UTF-8.
        return (head + text).encode() + b'<!-- \xff -->', None, False
    if how == 'bom':
        return codecs.BOM_UTF8 + (head + text).encode(), charset, head + text
    if how == 'utf16':
        head = decl('UTF-16', alone) if case['at'] % 2 else head
        return (codecs.BOM_UTF16_BE + (head + text).encode('utf-16-be') if case['at'] > 1 else
                codecs.BOM_UTF16_LE + (head + text).encode('utf-16-le')), charset if case['at'] % 2 else None, head + text
    if how == 'decl':
        text = text.encode(codec, 'ignore').decode(codec)
        full = decl(codec if case['at'] else codec.upper(), alone) + text
        return full.encode(codec), None, full
    if how == 'unknown':
        full = decl(g_unknown[case['at'] % len(g_unknown)], alone) + text
        return full.encode(), None, None
    # The charset parameter, which takes priority over any declaration.
    codec = charset or 'utf-8'
    try:
        codecs.lookup(codec).name
        text = text.encode(codec, 'ignore').decode(codec)
    except (LookupError, UnicodeError):
        return (head + text).encode(), charset, None
    full = decl(['utf-8', 'iso-8859-1', 'utf-16', 'foo', 'koi8-r'][case['at']], alone) + text if case['at'] % 2 and codec != 'utf-16' else head + text
    if codec == 'utf-16':
        full = head + text
        return full.encode('utf-16'), charset, full
    body = full.encode(codec)
    if body.startswith((codecs.BOM_UTF8, codecs.BOM_UTF16_LE, codecs.BOM_UTF16_BE)):
        return body, charset, None
    if charset is None and 'encoding=' in full:
        full = head + text
        body = full.encode()
    return body, charset, full


g_unknown = ['foo', 'shift_jis', 'x-user-defined', 'gb18030']


def check(case):
    kind, ctype, charset = case['kind'], case['type'].lower(), case['charset']
    want = collections.Counter()
    verdict = None              # is the payload malformed
    text = case['text']
    params = list(case['extra'])
    main = []
    if kind == 'xml':
        body, charset, doc = xml_bytes(case, charset)
    elif kind == 'json':
        codec = case.get('as') or charset or 'utf-8'
        try:
            text = text.encode(codec, 'ignore').decode(codec)
            body = text.encode(codec)
        except (LookupError, UnicodeError):
            body = text.encode()
    elif kind == 'multipart':
        body = text.encode()
        charset = None
        if case['declared']:
            main.append(('boundary', case['boundary']))
    else:
        body = text.encode()
        charset = None
    if body.startswith(codecs.BOM_UTF8) and kind != 'xml':
        return False, ['BOM']
    if charset is not None:
        main.append(('charset', charset))
    for p in main:
        params.insert(case['at'] % (len(params) + 1), p)
    judged = None
    if case['absent'] == 'empty':
        body = b''
    elif case['absent'] != 'no':
        body = None if case['absent'] == 'unknown' else UNAVAILABLE
    full = body is not None and body != UNAVAILABLE
    place = case['place']
    if place != 'request':
        if case['status'] in (204, 304, 103) or (case['status'] == 206 and ctype != 'multipart/byteranges'):
            full = False
        if place == 'response' and case['method'] == 'HEAD':
            full = False
        if place == 'alone' and body == b'':
            full = False
    elif body == b'':
        return False, ['no body']
    if case['gzip'] and body and body != UNAVAILABLE:
        import gzip
        coded = gzip.compress(body, mtime=0)
    else:
        coded = body

    # What the payload is judged as.
    if full:
        if ctype in JSON_TYPES or ctype.endswith('+json'):
            judged = 'json'
            try:
                # (the name is not looked at if there is nothing to decode)
                b'\x00'.decode(charset or 'utf-8', 'replace')
                s = body.decode(charset or 'utf-8')
                ok = payload.json_ok(s)
                name = codecs.lookup(charset or 'utf-8').name
            except (LookupError, UnicodeError):
                judged = None
            else:
                if s.startswith('\ufeff'):
                    return False, ['BOM']
                if not ok:
                    want[1038] += 1
                elif name not in ('ascii', 'utf-8'):
                    want[1281] += 1
        elif ctype in ('application/xml', 'text/xml') or ctype.endswith('+xml'):
            if kind != 'xml' or body == b'':
                if body != b'':
                    return False, ['foreign']
                doc = ''
                try:
                    b'\x00'.decode(charset or 'utf-8', 'replace')
                except LookupError:
                    doc = None
            if doc is not None:
                judged = 'xml'
                dtd = DOCTYPES[case['dtd']] if case['dtd'] is not None and doc else None
                if doc and ('<!DOCTYPE' in doc) != bool(dtd):
                    raise HarnessError('doctype')
                if dtd and dtd[2]:
                    # Entities are reported before anything that follows them.
                    ok = payload.xml_ok(doc[:doc.find('<!DOCTYPE')] + '<a/>')
                    want[1275 if ok else 1039] += 1
                elif doc is False or not payload.xml_ok(doc, dtd and dtd[:2]):
                    want[1039] += 1
        elif ctype.startswith('multipart/'):
            judged = 'multipart'
            names = [n.lower() for n, _ in params]
            if 'boundary' not in names:
                want[1139] += 1
            elif not payload.multipart_ok(body, case['boundary'].encode()):
                want[1140] += 1
        elif ctype == FORM_TYPE:
            judged = 'form'
            if not payload.form_ok(body):
                want[1040] += 1
    if ctype in DEPRECATED:
        want[1035] += 1
    counts = collections.Counter(n.lower() for n, _ in params)
    want[1042] += sum(c > 1 for c in counts.values())
    if ctype == 'application/json' and charset is not None:
        want[1280] += 1

    value = case['type']
    for n, v in params:
        if case['style'] == 3:
            n = n.upper()
        plain = v and set(v) <= TOKEN and case['style'] != 4
        value += [';', '; ', ' ; ', ';\t', ';', '; '][case['style']] + n + '=' + (v if plain else quoted(v))
    headers = [('Content-Type', value.encode())]
    if case['repeat']:
        # The last one counts.
        headers.insert(0, ('Content-Type', [b'application/json', b'application/xml;charset=utf-8', b'multipart/mixed;boundary=zzz', b'text/directory',
                                            b'text/plain;a=b;a=c'][case['at']]))
    if coded is not body:
        headers.append(('Content-Encoding', b'gzip'))
    if place == 'request':
        e = {'request': {'scheme': 'http', 'method': case['method'], 'target': '/', 'version': case['version'],
                         'headers': [('Host', b'a.com')] + headers, 'body': coded, 'trailers': None}, 'responses': []}
    else:
        e = {'request': None, 'responses': [{'version': case['version'], 'status': case['status'], 'reason': 'x', 'headers': headers,
                                             'body': coded, 'trailers': None}]}
        if place == 'response':
            e['request'] = {'scheme': 'http', 'method': case['method'], 'target': '/', 'version': case['version'],
                            'headers': [('Host', b'a.com')], 'body': b'', 'trailers': None}
    exch = sut('constructing', wild.build, e)
    sut('check_exchange', httpolice.check_exchange, exch)
    req, resps, _ = wild.ids(exch)
    found = req if place == 'request' else resps[0]
    require(1000 not in found, 'the Content-Type %r is considered malformed', value)
    same('payload notices for %r with body %r' % (value, body), sorted(want.elements()), sorted(i for i in found if i in OWN))
    labels = ['%s: %s' % (judged, ', '.join(map(str, sorted(want.elements() and set(want.elements())))) or 'fine')] if judged else \
        ['not judged', 'body %s' % case['absent']]
    if kind == 'xml' and judged:
        labels.append('xml ' + case['how'])
    return judged is not None or bool(+want), labels


PARTS = [Part('payload', gen, check, 60000)]
