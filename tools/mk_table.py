#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (the last table there) from seeded/; keeps the remarks in (..) after a *."""
import json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
s = open('DESIGN.md').read()
i = s.index('## 5. Planted bugs')
i = s.index('|---|---|---|\n', i) + len('|---|---|---|\n')
j = s.index('\n\n## 6.', i)
stars = {m[1]: m[2] for m in (re.match(r'\| (\S+) (\* \(.*?\)) \| ', l) for l in s[i:j].splitlines()) if m}
rows = []
for d in sorted(os.listdir('seeded')):
    m = json.load(open(f'seeded/{d}/meta.json'))
    rows.append(f"| {d}{' ' + stars[d] if d in stars else ''} | {m['property']} | {m['needs']} |")
s = s[:i] + '\n'.join(rows) + s[j:]
open('DESIGN.md', 'w').write(s)
