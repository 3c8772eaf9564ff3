#!/usr/bin/env python3
"""Rewrites contracts/known_functions.txt and contracts/status.json from the current tree (run by hand)."""
import json, os, re, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import check
check.SCRATCH = tempfile.mkdtemp(prefix='conch-refresh-')
vx = check.build_vx()
src, e = check.expand()
assert src, e
C = check.CONTRACTS
mp = os.path.join(check.SCRATCH, 'map.json')
cmd = [vx, src, '--prelude', C + '/prelude.rs', '--out', check.SCRATCH + '/gen.rs', '--map', mp]
for f in check.contracts('ALL'): cmd += ['--contracts', os.path.join(C, f)]
subprocess.run(cmd, check=True)
m = json.load(open(mp))
open(C + '/known_functions.txt', 'w').write('\n'.join(sorted({f['key'] for f in m['functions']})) + '\n')
props = {}
key = None
for f in check.contracts('ALL'):
    for l in open(os.path.join(C, f)):
        if l.startswith('@fn '): key = l.split()[1]; props.setdefault(key, set())
        elif l.startswith('@') and not l.startswith(('@loop', '@proof')): key = None
        if key:
            if l.startswith('props '): props[key] |= set(l.split()[1:])
            for t in re.findall(r'\[((?:C\d\d ?)+)\]', l): props[key] |= set(t.split())
st = {}
for f in m['functions']:
    p = props.get(f['key'], set())
    if 'all' in p: p = {'every property'}
    st[f['key']] = {'status': f['status'], 'reason': f['reason'], 'props': sorted(p)}
json.dump(st, open(C + '/status.json', 'w'), indent=0, sort_keys=True)
from collections import Counter
print(Counter(f['status'] for f in m['functions']), 'missing:', m['missing'])
for f in m['functions']:
    if f['status'] == 'undecided': print(f['key'], f['reason'])
import shutil; shutil.rmtree(check.SCRATCH)
