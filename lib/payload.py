"""Reference recognisers of payload languages: JSON (RFC 8259), XML 1.0 without DTD, multipart delimiters, form characters."""
import re

# ------------------------------------------------------------------ JSON

_NUM = re.compile(r'-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][-+]?[0-9]+)?')
_STR = re.compile(r'"([^"\\\x00-\x1f]|\\(["\\/bfnrt]|u[0-9A-Fa-f]{4}))*"')
_WS = re.compile(r'[ \t\n\r]*')
_LIT = re.compile(r'true|false|null')


def json_ok(s):
    """Is this string a JSON text?"""
    def ws(i):
        return _WS.match(s, i).end()

    def value(i):
        i = ws(i)
        c = s[i:i + 1]
        if c in ('{', '['):
            close = '}' if c == '{' else ']'
            i = ws(i + 1)
            if s[i:i + 1] == close:
                return ws(i + 1)
            while True:
                if c == '{':
                    m = _STR.match(s, i)
                    if not m:
                        return -1
                    i = ws(m.end())
                    if s[i:i + 1] != ':':
                        return -1
                    i += 1
                i = value(i)
                if i < 0:
                    return -1
                if s[i:i + 1] == close:
                    return ws(i + 1)
                if s[i:i + 1] != ',':
                    return -1
                i = ws(i + 1)
        for r in (_STR, _NUM, _LIT):
            m = r.match(s, i)
            if m:
                return ws(m.end())
        return -1
    return value(0) == len(s)


# ------------------------------------------------------------------ XML

_NAME = r'[A-Za-z_\u00e9\u0430-\u044f][A-Za-z0-9._\u00e9\u0430-\u044f-]*'
_REF = r'&(?:(%s)|#([0-9]+)|#x([0-9A-Fa-f]+));' % _NAME
_S = r'[ \t\r\n]'
_OPEN = re.compile(r'<(%s)((?:%s+%s%s*=%s*(?:"[^<"]*"|\'[^<\']*\'))*)%s*(/?)>' % (_NAME, _S, _NAME, _S, _S, _S))
_ATTR = re.compile(r'%s+(%s)%s*=%s*("[^<"]*"|\'[^<\']*\')' % (_S, _NAME, _S, _S))
_CLOSE = re.compile(r'</(%s)%s*>' % (_NAME, _S))
_COMMENT = re.compile(r'<!--((?:(?!--)[\s\S])*)-->')
_PI = re.compile(r'<\?(%s)(?:%s+(?:(?!\?>)[\s\S])*)?\?>' % (_NAME, _S))
_CDATA = re.compile(r'<!\[CDATA\[(?:(?!\]\]>)[\s\S])*\]\]>')
_DECL = re.compile(r'<\?xml%s+version="1\.0"(?:%s+encoding=["\']([A-Za-z][A-Za-z0-9._-]*)["\'])?(?:%s+standalone=["\'](yes|no)["\'])?%s*\?>'
                   % (_S, _S, _S, _S))
_PREDEFINED = ('lt', 'gt', 'amp', 'apos', 'quot')


def is_char(c):
    return c in (9, 10, 13) or 0x20 <= c <= 0xd7ff or 0xe000 <= c <= 0xfffd or 0x10000 <= c <= 0x10ffff


def _refs_ok(s, lenient):
    i = 0
    while True:
        i = s.find('&', i)
        if i < 0:
            return True
        m = re.compile(_REF).match(s, i)
        if not m:
            return False
        if m.group(1):
            if m.group(1) not in _PREDEFINED and not lenient:
                return False
        else:
            n = m.group(2) or m.group(3)
            if len(n) > 12 or not is_char(int(n, 10 if m.group(2) else 16)):
                return False
        i = m.end()


def _attrs_ok(s, lenient):
    seen = set()
    for m in _ATTR.finditer(s):
        if m.group(1) in seen or not _refs_ok(m.group(2), lenient):
            return False
        seen.add(m.group(1))
    return True


def xml_ok(s, doctype=None):
    """Is this string a well-formed XML document?

    ``doctype`` is None or (its exact text, whether entities may be declared elsewhere).
    The only DTD allowed is that one.
    """
    if not all(is_char(ord(c)) for c in s):
        return False
    m = _DECL.match(s)
    i = m.end() if m else 0
    lenient = bool(doctype and doctype[1] and not (m and m.group(2) == 'yes'))
    stack, done, dtd = [], False, False
    while i < len(s):
        if s[i] != '<':
            j = s.find('<', i)
            j = len(s) if j < 0 else j
            text = s[i:j]
            if stack:
                if ']]>' in text or not _refs_ok(text, lenient):
                    return False
            elif text.strip(' \t\r\n'):
                return False
            i = j
            continue
        if doctype and s.startswith(doctype[0], i) and not stack and not done and not dtd:
            dtd = True
            i += len(doctype[0])
            continue
        m = _COMMENT.match(s, i)
        if m:
            i = m.end()
            continue
        m = _PI.match(s, i)
        if m:
            if m.group(1).lower() == 'xml':
                return False
            i = m.end()
            continue
        m = _CDATA.match(s, i)
        if m and stack:
            i = m.end()
            continue
        m = _OPEN.match(s, i)
        if m:
            if done or not _attrs_ok(m.group(2), lenient):
                return False
            if not m.group(3):
                stack.append(m.group(1))
            elif not stack:
                done = True
            i = m.end()
            continue
        m = _CLOSE.match(s, i)
        if not m or not stack or stack.pop() != m.group(1):
            return False
        if not stack:
            done = True
        i = m.end()
    return done


# ------------------------------------------------------------------ multipart and forms

def multipart_ok(body, boundary):
    """Does the boundary delimit any part?"""
    for line in re.split(b'\r\n|\r|\n', body):
        if line.startswith(b'--' + boundary):
            rest = line[len(boundary) + 2:]
            if not rest.strip(b' \t'):
                return True
            if rest.startswith(b'--') and not rest[2:].strip(b' \t'):
                return False
    return False


FORM = set(b'*-._+%&=0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz')


def form_ok(body):
    return set(body) <= FORM
