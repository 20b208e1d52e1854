"""Snapshot of the protocol tables that the model of the rules uses (run once; the output is reviewed and committed)."""
import csv
import json
import os
import sys

src = sys.argv[1]
out = {}


def rows(name):
    with open(os.path.join(src, name + '.csv'), newline='') as f:
        return list(csv.DictReader(f))


def tri(s):
    return {'True': True, 'False': False, '': None}[s]


out['methods'] = {r['key']: {k: tri(r[k]) for k in ('cacheable', 'defines_body', 'safe')} for r in rows('method')}
out['statuses'] = {r['key']: r['cacheable'] or None for r in rows('status_code')}
out['headers'] = {
    r['key']: {'rule': r['rule'], 'deprecated': r['iana_status'] in ('deprecated', 'obsoleted'),
               **{k: tri(r[k]) for k in ('for_request', 'for_response', 'precondition', 'proactive_conneg',
                                         'representation_metadata', 'bad_for_connection', 'bad_for_trailer',
                                         'quoted_comma_bad', 'quoted_semicolon_bad')}}
    for r in rows('header')}
out['media_types'] = {r['key']: {'deprecated': tri(r['deprecated']), 'patch': tri(r['patch'])}
                      for r in rows('media_type') if r['deprecated'] or r['patch']}
out['other_media_types'] = sorted(r['key'] for r in rows('media_type') if not (r['deprecated'] or r['patch']))[::6]
out['libraries'] = [r['key'] for r in rows('product') if tri(r['library'])]
out['directives'] = {r['key']: {'argument': r['argument'], 'form': r['argument_form'],
                                'for_request': tri(r['for_request']), 'for_response': tri(r['for_response'])}
                     for r in rows('cache_directive')}
json.dump(out, open('lib/tables.json', 'w'), indent=1, sort_keys=True)
