"""A strict little reader of HTML reports: balanced elements, a tree, and its notice blocks."""
from html.parser import HTMLParser

from lib.core import Violation, require

VOID = {'meta', 'hr', 'base', 'br', 'link', 'img', 'input'}


class El:
    __slots__ = ('tag', 'attrs', 'kids', 'parent')

    def __init__(self, tag, attrs, parent):
        self.tag, self.attrs, self.parent = tag, attrs, parent
        self.kids = []

    def __repr__(self):
        return '<%s %r>' % (self.tag, self.attrs)

    def text(self):
        return ''.join(k if isinstance(k, str) else k.text() for k in self.kids)

    def iter(self):
        yield self
        for k in self.kids:
            if isinstance(k, El):
                yield from k.iter()

    def els(self):
        return [k for k in self.kids if isinstance(k, El)]

    @property
    def classes(self):
        return (self.attrs.get('class') or '').split()


class _Reader(HTMLParser):
    def __init__(self):
        HTMLParser.__init__(self, convert_charrefs=True)
        self.root = El('#root', {}, None)
        self.cur = self.root
        self.decls = []

    def handle_starttag(self, tag, attrs):
        names = [n for n, _ in attrs]
        require(len(set(names)) == len(names), 'repeated attribute in <%s %r>', tag, attrs)
        e = El(tag, dict(attrs), self.cur)
        self.cur.kids.append(e)
        if tag not in VOID:
            self.cur = e

    def handle_startendtag(self, tag, attrs):
        raise Violation('self-closing <%s %r/>' % (tag, attrs))

    def handle_endtag(self, tag):
        require(self.cur.tag == tag, 'end tag </%s> inside <%s>', tag, self.cur.tag)
        self.cur = self.cur.parent

    def handle_data(self, data):
        self.cur.kids.append(data)

    def handle_comment(self, data):
        raise Violation('comment in the report: %r' % data)

    def handle_decl(self, decl):
        self.decls.append(decl)

    def unknown_decl(self, data):
        raise Violation('declaration in the report: %r' % data)

    def handle_pi(self, data):
        raise Violation('processing instruction in the report: %r' % data)


def read(text):
    r = _Reader()
    r.feed(text)
    r.close()
    require(r.cur is r.root, 'unclosed <%s>', r.cur.tag)
    require([d.lower() for d in r.decls] == ['doctype html'], 'declarations: %r', r.decls)
    return r.root


class Notice:
    """One notice as displayed."""

    def __init__(self, el):
        self.el = el
        cls = el.classes
        require(len(cls) == 2 and cls[0] == 'notice', 'classes of a notice: %r', cls)
        self.severity = cls[1]
        h3 = el.els()[0]
        abbr, ident, title = h3.els()
        self.abbr, self.abbr_title = abbr.text(), abbr.attrs.get('title')
        self.id = int(ident.text())
        self.title = title.text().strip()
        self.title_el = title
        self.paras = [k.text() for k in el.els()[1:] if k.tag == 'p']


class Section:
    """One message with its notices."""

    def __init__(self, el):
        kids = el.els()
        require(kids and kids[0].classes == ['message-display'] and len(kids) <= 2,
                'message section: %r', kids)
        self.display = kids[0]
        self.notices = notices_of(kids[1]) if len(kids) == 2 else []
        require(len(kids) == 1 or self.notices, 'empty list of notices')


class Display:
    """The preview of a message: start line pieces, field lines, body, trailer lines."""

    def __init__(self, el):
        self.remark = None
        self.body_title = self.body = None
        self.has_body = False
        self.headers, self.trailers = [], []
        self.trailer_title = None
        self.start = None
        for k in el.els():
            if k.tag == 'p' and k.classes == ['message-remark']:
                require(self.start is None and self.remark is None, 'misplaced remark')
                self.remark = k.text()
            elif k.tag == 'h2':
                require(self.start is None, 'second start line')
                [code] = k.els()
                self.start = [squeeze(x.text()) for x in code.els()]
                self.start_els = code.els()
            elif k.tag == 'pre':
                require(not self.has_body and not self.trailers, 'header field after the body')
                self.headers.append(k)
            elif k.tag == 'div' and 'body-display' in k.classes:
                require(not self.has_body and not self.trailers, 'second body')
                self.has_body = True
                for x in k.els():
                    if x.tag == 'h3':
                        self.body_title = x.text().strip()
                    else:
                        require(x.tag == 'pre' and self.body is None, 'in body: %r', x)
                        self.body = x.text()
            elif k.tag == 'div' and k.classes == ['trailer']:
                self.trailer_title = k.els()[0].text()
                self.trailers = k.els()[1:]
            else:
                raise Violation('unexpected %r in a message preview' % k)
        require(self.start is not None, 'no start line')


def squeeze(s):
    """Undo the indentation that the renderer adds around the children of an element."""
    return s.strip('\n ')


def notices_of(div):
    require(div.tag == 'div' and div.classes == ['complaints'], 'not a complaints block: %r', div)
    return [Notice(e) for e in div.els()]


class Block:
    """One exchange."""

    def __init__(self, el):
        self.sections, self.notices = [], []
        for k in el.els():
            if k.tag == 'section':
                require(not self.notices, 'message after the notices of the exchange')
                self.sections.append(Section(k))
            elif k.tag == 'hr':
                pass
            else:
                require(not self.notices, 'two complaints blocks')
                self.notices = notices_of(k)


class Report:
    def __init__(self, data):
        try:
            text = data.decode('utf-8')
        except UnicodeError as e:
            raise Violation('HTML report is not UTF-8: %s' % e)
        self.text = text
        self.root = read(text)
        [html] = self.root.els()
        self.head, self.body = html.els()
        require(html.tag == 'html' and self.head.tag == 'head' and self.body.tag == 'body',
                'document structure: %r', html.els())
        kids = self.body.els()
        require([k.tag for k in kids[:2]] == ['h1', 'hr'], 'start of the body: %r', kids[:3])
        self.exchange_els = kids[2:]
        for k in self.exchange_els:
            require(k.tag == 'div' and k.classes == ['exchange'], 'not an exchange: %r', k)
        self.blocks = [Block(k) for k in self.exchange_els]


def report(exchanges):
    import io
    import httpolice
    from lib.core import sut
    buf = io.BytesIO()
    sut('html_report', httpolice.html_report, exchanges, buf)
    return Report(buf.getvalue())


def normal(rep):
    """The tree of a report in which labels of references are replaced with what they lead to."""
    def scan(el, refs):
        for e in el.iter():
            ref = e.attrs.get('data-ref-id')
            if ref is not None:
                refs.setdefault(ref, len(refs))
        return refs

    def tree(el, refs):
        if el.classes == ['exchange']:
            refs = scan(el, {})
        attrs = {k: v for k, v in el.attrs.items() if k not in ('data-ref-id', 'data-ref-to')}
        if 'data-ref-id' in el.attrs:
            attrs['data-ref-id'] = refs.get(el.attrs['data-ref-id'])
        if 'data-ref-to' in el.attrs:
            to = {refs[r] for r in el.attrs['data-ref-to'].split() if r in refs}
            attrs['data-ref-to'] = sorted(to)
        return (el.tag, sorted(attrs.items(), key=repr), [k if isinstance(k, str) else tree(k, refs) for k in el.kids])
    return tree(rep.root, {})
