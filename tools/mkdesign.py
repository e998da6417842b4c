#!/usr/bin/env python3
"""mkdesign.py: regenerate the generated parts of DESIGN.md: section 4 (explored spaces, from
evidence/*.json of a quick run) and the table of section 8 (planted bugs, from seeded/*/meta.json)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); os.chdir(V)
MISSED = {'bcast-same-size', 'crc-first-block', 'pack-count-16bit', 'setf-replaces-empty', 'mask-restored-late', 'mode-prefix', 'log-nested-level'}
MISSED |= set(open('tools/missed.txt').read().split()) if os.path.exists('tools/missed.txt') else set()
s = open('DESIGN.md').read()
out = []
for i in range(1, 100):
    f = f'evidence/C{i:02d}.json'
    if not os.path.exists(f): continue
    c = json.load(open(f))['coverage']
    b = '; '.join(c['bounds']) if c.get('bounds') else ''
    sp = {}
    for x in c['suites']: sp.setdefault(re.sub(r'-\d\d$', '', x['name']), x.get('space'))
    out.append(f'**C{i:02d}**: ' + '; '.join(f"*{n}* {t}" for n, t in sp.items() if t) + (f'; bounds reached: {b}' if b else ''))
a = s.index('\n', s.index('## 4. What is explored')) + 1; e = s.index('## 5. ')
s = s[:a] + '\n' + '\n\n'.join(out) + '\n\n' + s[e:]
rows = []
for d in sorted(os.listdir('seeded')):
    m = json.load(open(f'seeded/{d}/meta.json'))
    rows.append(f"| {d}{' *(m)*' if d in MISSED else ''} | {m['property']} | {m['needs']} |")
a = s.index('|--------|----------|-------|\n') + len('|--------|----------|-------|\n'); e = s.index('\n\n', a)
s = s[:a] + '\n'.join(rows) + s[e:]
open('DESIGN.md', 'w').write(s)
