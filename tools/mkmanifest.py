#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the harness directories and the notes below."""
import json, glob, re, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
have, bounds = set(), {}
for f in glob.glob(root + '/harness/*/*.go'):
    cur = []  # the properties of the function's harnesses so far
    for l in open(f):
        if not l.startswith('//'): cur = []
        m = re.match(r'//\s*verif:harness (\S+)', l)
        if m: cur.append(m.group(1)); have.add(m.group(1))
        m = re.match(r'//\s*verif:bound (.*)', l)
        if m:
            for c in dict.fromkeys(cur): bounds.setdefault(c, []).append(m.group(1).strip())
NA = json.load(open(root + '/tools/not_applicable.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA or i not in have:
        na.append(dict(property=i, reason=NA.get(i, 'no check has been built for this property yet')))
        continue
    checks.append(dict(property=i, quick_cmd=f'./check {i} quick', thorough_cmd=f'./check {i} thorough',
        technique='symbolic execution of the compiled Go SSA of the real code with z3 deciding branches and assertions; counterexamples replayed on the real binary',
        level='model_checking',
        level_note='Bounded: ' + '; '.join(dict.fromkeys(bounds.get(i, []))) + '. Trusts go/ssa, the executor (cross-checked by replaying sampled paths natively) and z3; goroutines switch only at channel operations, locks, waits and harness events.'))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
    notes='No hooks in /repo: harnesses are laid over the tree with a build overlay.'), open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
