"""C23: the text report mirrors the notices, one line each, in the documented layout."""
import io

import httpolice
from lib import render
from lib.core import Part, require, sut

PID = 'C23'
TECHNIQUE = 'exchanges with hostile text in every part, silences and notice-only boxes; oracle: an independent renderer of the report'
NOTE = ('Random sampling. Titles are matched against the templates of the notices base; variables that name methods, '
        'statuses, versions and fields are compared with the message, others are free text on one line.')
RULE = ('lists of 1-3 exchanges whose notices are varied by mutation of a corpus and whose text has markup, control characters, '
        'line breaks, typographic characters and overlong parts; non-trivial when the report has at least two notice lines')
ASSUMPTIONS = ['the wording of titles is what notices.xml says']


class _Sink:
    """A binary file that cannot be read, seeked or written text."""

    def __init__(self):
        self.data = b''

    def write(self, b):
        require(isinstance(b, bytes), 'text written to a binary file')
        self.data += b
        return len(b)


def check(case):
    exchanges, cases = render.make(case)
    sink = _Sink()
    # An iterable that can be consumed only once.
    sut('text_report', httpolice.text_report, iter(exchanges), sink)
    try:
        text = sink.data.decode('utf-8')
    except UnicodeError as e:
        require(False, 'the report is not UTF-8: %s', e)
    titles = render.check_report(text, exchanges, cases)
    again = io.BytesIO()
    sut('text_report', httpolice.text_report, exchanges, again)
    require(again.getvalue() == sink.data, 'the second report differs')
    labels = ['%d exchanges' % len(exchanges), 'silence ' + case['silence']]
    if not text:
        labels.append('empty')
    if '\ufffd' in text:
        labels.append('replaced')
    if '...\n' in text:
        labels.append('cut')
    labels += ['no. %d' % i for _, i, _ in titles]
    return len(titles) > 1, labels


PARTS = [Part('report', render.gen, check, 6000), Part('markers', render.gen_cut, check, 3000)]
