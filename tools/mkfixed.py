"""Rewrites the 'fixed' list of known_findings.json from the fix: commits of /repo (run by hand)."""
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {
    'alternatives in Accept': 'C12', 'repeated TE': 'C12', 'Base64 credentials': 'C17', 'failed DELETE': 'C14', 'HTTP2-Settings is repeated': 'C14', 'empty query': 'C14',
    'multipart 206': 'C16', 'only if there is no If-None-Match': 'C16', 'Content-Location in 304': 'C16',
    'numbers with thousands': 'C01', 'huge Age': 'C01', 'valid URIs that the standard': 'C01',
    'judge JSON': 'C10', 'boundary of multipart': 'C10', 'URL-encoded bodies': 'C10', 'external DTD': 'C10', 'when parsing XML': 'C10', 'payload of responses that cannot': 'C10', 'non-text codecs': 'C01', 'XML in encodings': 'C01',
    'deeply nested comments': 'C01', 'Link parameters without': 'C01', '451 responses': 'C01',
    'members of gzip': 'C09', 'Saturday': 'C11', 'two-digit years': 'C11', 'leap seconds': 'C11', 'hexadecimal digits as chunk': 'C04',
    'unknown Basic parameters': 'C22', 'expected symbols': 'C22', 'status and warn codes as numbers': 'C08',
    'IDs come from an iterator': 'C21', 'ignored in the trailer': 'C07', 'find access tokens': 'C20', 'headers_from_cgi': 'C28', 'lose parts of the target': 'C27', 'malformed HAR files': 'C02',
    'impossible timestamps': 'C02', 'ambiguous tcpick': 'C26', 'on one line in text': 'C23', 'Infinity in place': 'C08', 'mix up references': 'C24',
}
path = os.path.join(ROOT, 'known_findings.json')
doc = json.load(open(path)) if os.path.exists(path) else {'known': [], 'fixed': []}
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True)
doc['fixed'] = []
for line in log.splitlines():
    h, subj = line.split(' ', 1)
    if subj.startswith('fix: '):
        pid = [p for k, p in PROP.items() if k in subj]
        assert len(pid) == 1, subj
        doc['fixed'].append('fixed: property=%s %s %s' % (pid[0], h, subj[5:]))
with open(path, 'w') as f:
    json.dump(doc, f, indent=1)
    f.write('\n')
