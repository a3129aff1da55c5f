#!/usr/bin/env python3
"""Rewrites MANIFEST.json from checks.py and properties.jsonl."""
import json, checks
props = [json.loads(l) for l in open('properties.jsonl')]
NOTE = ('The TLA+ specification is checked exhaustively within the stated bounds, and what the real code did on recorded histories (and on replayed '
        'behaviours of the specification) is judged by TLC against it; assurance beyond the histories explored is by sampling. Trusted: TLC, the recorder harness/.')
cs = []
for p in props:
    c = checks.CHECKS.get(p['id'])
    if not c: continue
    cs.append(dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                   technique='TLA+ specification (TLC): ' + c.get('technique', 'exhaustive model checking, trace validation of the real code'),
                   level='model_checking', level_note=c.get('note', '') + (' ' if c.get('note') else '') + NOTE))
na = [dict(property=p['id'], reason='check under construction') for p in props if p['id'] not in checks.CHECKS]
json.dump(dict(version=1, setup_cmd='sh setup.sh', checks=cs, not_applicable=na, notes='No hooks: the checks use the public interface of /repo.'),
          open('MANIFEST.json', 'w'), indent=1)
