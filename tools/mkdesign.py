#!/usr/bin/env python3
"""Writes DESIGN.md from tools/DESIGN.in.md, properties.jsonl, the harness comments, known_findings.json, seeded/ and tools/results.json."""
import json, re, os, glob, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
res = json.load(open(H + '/tools/results.json')) if os.path.exists(H + '/tools/results.json') else {}
ORACLE = json.load(open(H + '/tools/oracles.json'))

def harnesses(pid):
    out = []
    for f in sorted(glob.glob(f'{H}/harness/{pid.lower()}/*.go')):
        doc = []
        for l in open(f):
            if l.startswith('// '): doc.append(l[3:].strip()); continue
            m = re.match(r'func (H\w+)\(\)', l)
            if m: out.append((m.group(1), ' '.join(doc)))
            doc = []
    return out

s = []
for p in props:
    pid = p['id']
    s.append(f"### {pid} {p['title']}\n")
    s.append(f"{p['statement']}\n")
    s.append(f"Oracle: {ORACLE[pid]}\n")
    for n, d in harnesses(pid):
        d = re.sub(r'^' + n + r'\s*:\s*', '', d)
        d = re.sub(r'^H\w+(, H\w+)*\s*:\s*', '', d)
        s.append(f"* `{n}`: {d}")
    c = res.get('cost', {}).get(pid)
    if c: s.append(f"\nCost: quick {c[0]} s" + (f", thorough {c[1]} s" if len(c) > 1 and c[1] else '') + '.')
    s.append('')
t = open(H + '/tools/DESIGN.in.md').read()
kf = json.load(open(H + '/known_findings.json'))
fixed = '\n'.join('* ' + re.sub(r'^fixed: property=', '', x) for x in kf['fixed'])
rows = ['| change | property | needs | caught by |', '|---|---|---|---|']
ids = sorted(os.listdir(H + '/seeded'))
for i in ids:
    m = json.load(open(f'{H}/seeded/{i}/meta.json'))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {res.get('seeds', {}).get(i, 'not run')} |")
ref = ['| edit | checks run | result |', '|---|---|---|']
for k, v in sorted(res.get('refactors', {}).items()):
    ref.append(f"| {k} | {v[0]} | {v[1]} |")
for k, v in (('@PROPERTIES@', '\n'.join(s)), ('@FIXED@', fixed), ('@NSEEDS@', str(len(ids))), ('@SEEDS@', '\n'.join(rows)), ('@REFACTORS@', '\n'.join(ref))):
    t = t.replace(k, v)
open(H + '/DESIGN.md', 'w').write(t)
