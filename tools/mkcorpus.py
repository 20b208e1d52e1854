"""Turns the sample files of /repo/test into corpus/exchanges.txt, seeds for mutation (run by hand once).

One Python literal per line, in the format of lib/wild.py.
"""
import glob
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from httpolice import inputs                                        # noqa: E402
from httpolice.structure import Unavailable                         # noqa: E402
from lib.wild import UNAVAILABLE                                    # noqa: E402


def msg(m):
    return {'headers': [(str.__str__(e.name), e.value) for e in m.header_entries],
            'body': UNAVAILABLE if isinstance(m.body, Unavailable) else m.body,
            'trailers': [(str.__str__(e.name), e.value) for e in m.trailer_entries] or None,
            'version': None if m.version is None else str.__str__(m.version)}


def s(x):
    return ''.join(x)


def fix(d):
    d['headers'] = [(s(n), v) for n, v in d['headers']]
    if d['trailers']:
        d['trailers'] = [(s(n), v) for n, v in d['trailers']]
    if d['version'] is not None:
        d['version'] = s(d['version'])
    return d


seen = set()
out = []
for kind, pattern in [('combined', 'combined_data/*'), ('har', 'har_data/*.har')]:
    for path in sorted(glob.glob('/repo/test/' + pattern)):
        for exch in inputs.formats[kind]([path]):
            req = None
            if exch.request:
                r = exch.request
                req = dict(fix(msg(r)), scheme=None if r.scheme is None else s(r.scheme),
                           method=s(r.method), target=s(r.target))
            resps = [dict(fix(msg(r)), status=int(r.status), reason=r.reason) for r in exch.responses]
            if not req and not resps:
                continue
            line = repr({'request': req, 'responses': resps})
            if len(line) < 6000 and line not in seen:
                seen.add(line)
                out.append(line)
with open('corpus/exchanges.txt', 'w') as f:
    f.write('\n'.join(out) + '\n')
print(len(out), sum(map(len, out)))
