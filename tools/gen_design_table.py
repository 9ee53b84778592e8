#!/usr/bin/env python3
"""Rewrites the last section of DESIGN.md (planted bugs) from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# missed by the checks of the time; what was added
FIRST = {
 'f01-heap-default': 'default sizes written explicitly', 'f02-first-unknown': 'unknown sections in first place',
 'f03-dedup': 'the same member several times', 'l03-resolved-relocs': 'stages without local names and executables as stages',
 'a04-last-file': 'outputs that cannot be written', 'm05-handler': 'lock-step of the machine around the call',
}
FIRST.update(json.load(open(V + '/tools/missed.json')) if os.path.exists(V + '/tools/missed.json') else {})
d = open(V + '/DESIGN.md').read()
d = d[:d.index('## Planted bugs')] if '## Planted bugs' in d else d.rstrip() + '\n\n'
rows = []
for k in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{k}/meta.json'))
    note = f' (first missed; added: {FIRST[k]})' if k in FIRST else ''
    rows.append(f"| `{k}` | {m['needs']} | {m['what_it_breaks']} | {m['property']}{note} |")
d += '## Planted bugs\n\nEach is caught by the check of its property; where the check had to be strengthened first, it says so.\n\n'
d += '| change | needs | breaks | caught by |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n'
open(V + '/DESIGN.md', 'w').write(d)
print(len(rows), 'planted bugs')
