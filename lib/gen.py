#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the table of DESIGN.md from meta.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from meta import META
TECH = 'property-based testing: generated inputs and histories against an explicit oracle, with shrinking'
with open(os.path.join(HERE, '..', 'properties.jsonl'), 'w') as f:
    for pid in sorted(META):
        m = META[pid]
        f.write(json.dumps({
            'id': pid, 'title': m['title'], 'statement': m['statement'],
            'quantifier': {'over': m['over'], 'text': m['quantifier']}, 'why_tests_cant': m['tests'],
            'anchors': {'files': m['files'], 'mechanism': [{'name': a, 'where': b} for a, b in m['mechanism']], 'observe_at': m['observe'], 'hook_needed': None}}) + '\n')
checks = [{
    'property': pid, 'quick_cmd': 'python3 check.py ' + pid, 'thorough_cmd': 'python3 check.py %s --tier thorough' % pid,
    'evidence_file': 'evidence/%s.json' % pid, 'technique': TECH, 'level': 'exploration',
    'level_note': META[pid]['note'] + (' Assumes: ' + '; '.join(META[pid]['assume']) + '.' if META[pid]['assume'] else ' A failure not reached by the generated cases is not excluded.')} for pid in sorted(META)]
with open(os.path.join(HERE, '..', 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 lib/setup.py', 'hooks': {'guard': 'none', 'enable': 'no hooks: the checks use the interfaces that are there', 'source_commits': []},
               'checks': checks, 'not_applicable': [], 'notes': 'Commits of /repo that start with "fix:" repair genuine defects; see known_findings.txt and DESIGN.md.'}, f, indent=1)
    f.write('\n')
path = os.path.join(HERE, '..', 'DESIGN.md')
text = open(path).read()
a, b = '<!-- table -->\n', '<!-- end table -->'
rows = ['| id | generated | oracle |', '|---|---|---|'] + ['| %s | %s | %s |' % (p, META[p]['rule'], META[p]['note']) for p in sorted(META)]
text = text[:text.index(a) + len(a)] + '\n'.join(rows) + '\n' + text[text.index(b):]
seeds = os.path.join(HERE, '..', 'seeded')
if os.path.isdir(seeds):
    rows = ['| planted bug | check that reports it | shows with |', '|---|---|---|']
    for d in sorted(os.listdir(seeds)):
        with open(os.path.join(seeds, d, 'meta.json')) as f:
            m = json.load(f)
        rows.append('| %s | %s | %s |' % (d, m['property'], m['needs']))
    a, b = '<!-- seeds -->\n', '<!-- end seeds -->'
    text = text[:text.index(a) + len(a)] + '\n'.join(rows) + '\n' + text[text.index(b):]
open(path, 'w').write(text)
