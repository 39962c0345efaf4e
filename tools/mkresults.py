#!/usr/bin/env python3
"""Folds what runseeds.sh and runrefactor.sh left in /tmp, and the evidence of the last runs, into tools/results.json."""
import json, os, glob, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = H + '/tools/results.json'
res = json.load(open(f)) if os.path.exists(f) else {}
seeds = res.setdefault('seeds', {}); refs = res.setdefault('refactors', {}); cost = res.setdefault('cost', {})
ids = set(os.listdir(H + '/seeded'))
for i in sorted(ids):
    p = '/tmp/seed.' + i
    if not os.path.exists(p): continue
    t = open(p).read()
    m = re.search(r'^VIOLATION property=(P\d+).*$', t, re.M)
    h = re.search(r'^(H\w+): ', t, re.M)
    seeds[i] = (m.group(1) + (' ' + h.group(1) if h else '')) if m else '**missed**'
for i in list(seeds):
    if i not in ids: del seeds[i]
for d in sorted(os.listdir(H + '/tools/refactor')):
    n = d[:-5]; o = '/tmp/ref.' + n
    c = [x[len(o) + 1:] for x in sorted(glob.glob(o + '.P*'))]
    if not c: continue
    bad = [x for x in c if re.search(r'^VIOLATION', open(o + '.' + x).read(), re.M)]
    inc = [x for x in c if ' 0 incomplete' not in open(o + '.' + x).read()]
    refs[n] = [' '.join(c), ('alarm: ' + ' '.join(bad)) if bad else 'quiet' + (', incomplete: ' + ' '.join(inc) if inc else '')]
for e in glob.glob(H + '/evidence/P*.json'):
    t = json.load(open(e)); k = os.path.basename(e)[:-5]
    w = t.get('wall_seconds') or t.get('wall_s') or (t.get('coverage') or {}).get('wall_seconds')
    if w is None: continue
    c = cost.setdefault(k, [0, 0])
    c[1 if t.get('tier') == 'thorough' else 0] = round(w)
json.dump(res, open(f, 'w'), indent=1, sort_keys=True)
print(len(seeds), 'seeds', [i for i in seeds if 'missed' in seeds[i]], len(refs), 'edits', len(cost), 'costs; seeds not run:', sorted(ids - set(seeds)))
