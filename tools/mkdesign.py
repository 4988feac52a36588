#!/usr/bin/env python3
"""Writes DESIGN.md from DESIGN.head.md, the harnesses, the planted bugs and notes on them."""
import json, glob, re, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = open(root + '/tools/DESIGN.head.md').read().rstrip() + '\n\n'
out += 'Parameters apply to both tiers unless marked.\n\n'
per = {}
for f in sorted(glob.glob(root + '/harness/**/*.go', recursive=True)):
    hs, bs = [], []
    for l in open(f):
        if not l.startswith('//'):
            if hs:
                for h in hs:
                    per.setdefault(h[0], []).append((h[1], h[2], '; '.join(bs), os.path.relpath(f, root)))
            hs, bs = [], []
        m = re.match(r'//\s*verif:harness (\S+) (\S+)(.*)', l)
        if m: hs.append((m.group(1), m.group(2), m.group(3).strip()))
        m = re.match(r'//\s*verif:bound (.*)', l)
        if m: bs.append(m.group(1).strip())
for l in open(root + '/properties.jsonl'):
    p = json.loads(l)
    out += f"### {p['id']} {p['title']}\n\n"
    for name, params, bound, f in per.get(p['id'], []):
        out += f"* **{name}** ({f}{'; `' + params + '`' if params else ''}): {bound}\n"
    out += '\n'
out += '## 6. Planted bugs\n\n'
out += open(root + '/tools/seednotes.md').read().rstrip() + '\n\n'
out += '| Bug | Property | Needs |\n|---|---|---|\n'
for d in sorted(glob.glob(root + '/seeded/*/meta.json'), key=lambda d: (json.load(open(d))['property'], d)):
    m = json.load(open(d))
    out += f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} |\n".replace('\n|', '\n|')
open(root + '/DESIGN.md', 'w').write(out)
