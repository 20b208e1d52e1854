"""C24: the HTML report is well-formed, safe, complete and consistent."""
import io
import os
import re

import httpolice
from lib import htmltree, render, seeds
from lib.core import REPO, Part, require, same, sut

PID = 'C24'
TECHNIQUE = ('exchanges with hostile text and markup in every part, silences and notice-only boxes; oracle: a strict HTML reader, '
             'a closed vocabulary of elements and attributes, notice lists, the text report and reference targets known from the message')
NOTE = ('Random sampling. References are resolved like html.js does (first element with that id within the exchange); those of '
        'notices about parsed values that have no element of their own are not judged.')
RULE = ('lists of 1-3 exchanges as in C23; non-trivial when the report has at least two notices and some reference that '
        'leads to a part of a message')

# Elements and their attributes in the part of the report that is made from exchanges.
ATTRS = {
    'div': {'class', 'data-ref-id'}, 'section': set(), 'p': {'class'}, 'h2': set(), 'code': set(),
    'span': {'class', 'data-ref-id', 'data-ref-to'}, 'a': {'href', 'title'}, 'pre': {'class', 'data-ref-id'}, 'h3': set(),
    'abbr': {'class', 'title'}, 'q': set(), 'cite': set(), 'hr': set(),
}
CLASSES = {'exchange', 'message-display', 'message-remark', 'header-entry', 'body-display', 'trailer', 'complaints', 'notice',
           'error', 'comment', 'debug', 'severity', 'ident', 'StatusCode'}
URL = re.compile(r"https?://[A-Za-z0-9./#_?=&%~:+,'()-]+\Z")
KNOWN = {'h', 'm', 'st', 'auth', 'cache', 'cc', 'hsts', 'media', 'prefer', 'tc', 'warn'}
_T = {}


def template(ident):
    """References of a notice in document order: (kind, path or text, disabled)."""
    if not _T:
        import lxml.etree
        for n in lxml.etree.parse(os.path.join(REPO, 'httpolice', 'notices.xml')).getroot():
            if isinstance(n.tag, str) and n.get('id'):
                _T[int(n.get('id'))] = [
                    (x.tag, x.get('to') or '' if x.tag == 'ref' else x.get('ref') if x.tag == 'var' else ''.join(x.itertext()),
                     x.tag in KNOWN and x.get('ref') == 'no')
                    for x in n.iter() if x.tag in KNOWN or x.tag in ('var', 'ref')]
    return _T[ident]


def vocabulary(el):
    for e in el.iter():
        require(e.tag in ATTRS, 'element %r in the report', e)
        require(set(e.attrs) <= ATTRS[e.tag], 'attributes of %r', e)
        require(set(e.classes) <= CLASSES, 'class of %r', e)
        for a in ('data-ref-id', 'data-ref-to'):
            if e.attrs.get(a):
                require(re.fullmatch('[0-9]+( [0-9]+)*', e.attrs[a]), '%s of %r', a, e)
        if e.tag == 'a':
            require(URL.match(e.attrs.get('href') or ''), 'link %r', e)


class Parts:
    """The displayed parts of a message that notices may refer to."""

    def __init__(self, section, msg, is_req):
        d = htmltree.Display(section.display)
        self.case, self.is_req = msg, is_req
        self.method = self.target = self.version = self.status = None
        els = list(d.start_els)
        if is_req:
            self.method, self.target = els[:2]
            self.version = els[2] if len(els) > 2 else None
        else:
            self.status = els[-1]
            self.version = els[0] if len(els) > 1 else None
        require(len(d.headers) == len(msg['headers']), '%d header fields displayed of %d', len(d.headers), len(msg['headers']))
        require(len(d.trailers) == len(msg['trailers'] or []), '%d trailer fields displayed', len(d.trailers))
        self.fields = list(zip([n for n, _ in msg['headers']], d.headers))
        self.trailers = list(zip([n for n, _ in msg['trailers'] or []], d.trailers))
        self.body = [e for e in section.display.els() if 'body-display' in e.classes]

    def named(self, name):
        """(those that must be referred to, those that may be)"""
        must = [e for n, e in self.fields if n.lower() == name.lower()]
        return must, must + [e for n, e in self.trailers if n.lower() == name.lower()]


def squash(s):
    return ' '.join(s.split())


def edges(s):
    """Spaces at the ends are stripped at different moments."""
    return squash(s).strip('\ufffd ')


def check_refs(block_el, notice, parts, req_parts):
    """`parts` of the message that the notice is on, `req_parts` of its request if that is a response."""
    first = {}
    for e in block_el.iter():
        if e.attrs.get('data-ref-id'):
            first.setdefault(e.attrs['data-ref-id'], e)
    spans = [e for e in notice.el.iter() if 'data-ref-to' in e.attrs]
    temps = template(notice.id)
    require(len(spans) == len(temps), 'no. %d has %d references, not %d', notice.id, len(spans), len(temps))
    n = 0
    for span, (kind, path, disabled) in zip(spans, temps):
        ids = (span.attrs['data-ref-to'] or '').split()
        targets = [first[i] for i in ids if i in first]
        n += len(targets)
        what = 'no. %d, reference of <%s>%s' % (notice.id, kind, path)

        def exactly(els):
            require(len(targets) == len(els) and all(a is b for a, b in zip(targets, els)),
                    '%s leads to %r instead of %r', what, targets, els)

        def fields(p, name):
            must, may = p.named(name)
            require(all(any(t is m for m in may) for t in targets), '%s leads to %r', what, targets)
            # Either all of them or the one that counts: the last one (that of the trailer may not count).
            require(all(any(t is m for t in targets) for m in must) or
                    (len(targets) == 1 and any(targets[0] is m for m in must[-1:] + may[-1:])),
                    '%s does not lead to all of %r, nor the last one', what, must)
            require(len(targets) == len(ids) == len({id(t) for t in targets}), '%s leads nowhere or twice', what)

        if disabled:
            require(not ids, '%s should be off', what)
        elif kind == 'h':
            fields(parts, path)
        elif kind == 'm':
            if parts.is_req:
                exactly([parts.method] if parts.case['method'] == path else [])
            else:
                exactly([req_parts.method] if req_parts is not None and req_parts.case['method'] == path else [])
        elif kind == 'st':
            exactly([parts.status] if not parts.is_req and '%d' % parts.case['status'] == path else [])
        elif kind in KNOWN:
            require(not ids, '%s should be off', what)
        else:
            steps = path.split('.')
            p = parts
            if steps[:2] == ['msg', 'request']:
                p = req_parts
                del steps[1]
            require(p is not None, '%s: there is no such message', what)
            if steps[0] == 'msg' and steps[1] in ('method', 'target', 'version', 'status') and len(steps) == 2:
                el = getattr(p, steps[1])
                require(el is not None or steps[1] == 'version', '%s: not displayed', what)
                exactly([el] if el is not None else [])
            elif steps[0] == 'msg' and steps[1] == 'headers' and len(steps) == 3:
                fields(p, steps[2].replace('_', '-'))
            elif path == 'msg.displayable_body':
                exactly(p.body)
            elif path == 'entry' and notice.id != 1299 and notice.id != 1300:
                name = squash(span.text())
                require(len(targets) == len(ids) == 1, '%s leads to %r', what, targets)
                require(any(t is targets[0] and name.lower() == squash(render.clean(m, False)).lower()
                            for m, t in p.fields + p.trailers), '%s leads to %r', what, targets)
            elif path in ('header', 'entries', 'headers', 'entry'):
                where = p.fields + p.trailers + (req_parts.fields + req_parts.trailers if req_parts else [])
                require(all(any(t is e for _, e in where) for t in targets), '%s leads to %r', what, targets)
                require(len(targets) == len(ids), '%s leads nowhere', what)
                if kind == 'var' and path == 'header':
                    name = squash(span.text())
                    ok = [e for m, e in p.fields + p.trailers if name.lower() == squash(render.clean(m, False)).lower()]
                    other = [e for m, e in (req_parts.fields + req_parts.trailers if req_parts else [])
                             if name.lower() == squash(m).lower()]
                    require(all(any(t is e for e in ok + other) for t in targets), '%s leads to %r', what, targets)
                if path == 'entries':
                    require(len(targets) > 1, '%s leads to %r', what, targets)
    return n


def check(case):
    exchanges, cases = render.make(case)
    rep = htmltree.report(iter(exchanges))
    bad = set(map(ord, rep.text)) & render.BAD
    require(not bad, 'forbidden characters in the report: %r', sorted(bad))
    for ref in re.findall('&#?[A-Za-z0-9]*;?', rep.text.split('<body', 1)[1]):
        require(ref in ('&amp;', '&lt;', '&gt;', '&quot;', '&#39;', '&#x27;'), 'character reference %r', ref)
    for e in rep.exchange_els:
        vocabulary(e)
    scripts = [e for e in rep.root.iter() if e.tag in ('script', 'style')]
    require(len(scripts) == 2, 'scripts and styles: %r', scripts)
    # The prologue and the epilogue do not depend on the exchanges.
    empty = io.BytesIO()
    httpolice.html_report([], empty)
    cut = rep.text.find('<div class="exchange">')
    if cut >= 0:
        require(empty.getvalue().decode().startswith(rep.text[:cut]), 'the start of the document depends on the exchanges')
    else:
        same('a report without exchanges', empty.getvalue().decode(), rep.text)

    buf = io.BytesIO()
    sut('text_report', httpolice.text_report, exchanges, buf)
    text_titles = render.check_report(buf.getvalue().decode('utf-8'), exchanges, cases)
    shown = [(e, c) for e, c in zip(exchanges, cases) if e.request is not None or e.responses or e.notices]
    same('number of exchanges in the report', len(shown), len(rep.blocks))
    refs = 0
    titles = []
    for (exch, c), block, el in zip(shown, rep.blocks, rep.exchange_els):
        msgs = ([exch.request] if exch.request is not None else []) + exch.responses
        same('number of messages', len(msgs), len(block.sections))
        req_parts = None
        for msg, mc, sec in zip(msgs + [exch], seeds.messages(c) + [None], block.sections + [block]):
            same('notices', [(n.id, n.severity.name) for n in msg.notices], [(n.id, n.severity) for n in sec.notices])
            parts = None
            if mc is not None:
                parts = Parts(sec, mc, msg is exch.request)
            for n in sec.notices:
                same('severity sign of no. %d' % n.id, (render.LETTER[n.severity], n.severity), (n.abbr, n.abbr_title))
                titles.append(squash(render.clean(render.plain(n.title))))
                require(any(x.tag in ('p', 'span') for x in n.el.els()), 'no. %d is empty', n.id)
                if parts is not None:
                    refs += check_refs(el, n, parts, req_parts)
            if msg is exch.request:
                req_parts = parts
    same('titles in the HTML report, compared with the text report', 
         [edges(t) for _, _, t in text_titles], [edges(t) for t in titles])
    return len(titles) > 1 and refs > 0, ['%d exchanges' % len(shown), 'silence ' + case['silence'],
                                         'references: %s' % ('0' if not refs else '1-4' if refs < 5 else '5-19' if refs < 20 else '20+')]


PARTS = [Part('report', render.gen, check, 2500)]
