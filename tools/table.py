#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(here + '/seeded/*/meta.json'):
    m = json.load(open(f))
    rows.append((m['property'], os.path.basename(os.path.dirname(f)), m['needs']))
text = open(here + '/DESIGN.md').read().split('\n')
at = [i for i, l in enumerate(text) if l.startswith('|---') and i > 0 and 'bug' in text[i - 1]]
i = at[0] + 1
j = i
while j < len(text) and text[j].startswith('|'):
    j += 1
text[i:j] = ['| %s | %s | %s |' % (p, n, b.replace('|', '/').replace('\n', ' ')) for p, n, b in sorted(rows)]
open(here + '/DESIGN.md', 'w').write('\n'.join(text))
