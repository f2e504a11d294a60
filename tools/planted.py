#!/usr/bin/env python3
"""Rewrites the list of planted changes and of properties not applicable in DESIGN.md (run by hand)."""
import glob
import json
import os
import re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(ROOT, 'DESIGN.md')
s = open(p).read()
rows = []
for f in sorted(glob.glob(os.path.join(ROOT, 'seeded/*/meta.json'))):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'], m['what_it_breaks']))
i = s.index('## 3. Planted changes')
m = re.search(r'\n## 4', s[i:])
tail = s[i + m.start():] if m else '\n'
s = s[:i] + ('## 3. Planted changes\n`seeded/<id>/`; every one listed is reported by the check of its property.\n\n'
             '| change | caught by | needs | breaks |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n') + tail
na = json.load(open(os.path.join(ROOT, 'MANIFEST.json')))['not_applicable']
i = s.index('### Not applicable')
j = s.index('## 3. Planted')
s = s[:i] + '### Not applicable\n' + '\n'.join('* %s: %s' % (x['property'], x['reason']) for x in na) + '\n\n' + s[j:]
open(p, 'w').write(s)
