#!/usr/bin/env python3
"""Record the shape of every function under contract on the current /repo tree (run by hand after contracts change)."""
import json, os, subprocess, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = V + '/build'
base = {}
for f in sorted(os.listdir(V + '/contracts')):
    if f.endswith('.vx'):
        u = f[:-3]
        o = subprocess.run([B + '/vx/debug/vx', '/repo/src', V + '/contracts', u, '/dev/null'], capture_output=True, text=True)
        i = json.loads(o.stdout)
        if i['lost']: print('LOST', u, i['lost'])
        base[u] = {x['fn']: dict(shape=x['shape'], calls=sorted(x['calls']), hash=x['hash']) for x in i['fns'] if not x['imported_from']}
json.dump(base, open(V + '/contracts/baseline.json', 'w'), indent=0, sort_keys=True)
names = set()
for d, _, fs in list(os.walk('/repo/src')) + list(os.walk('/repo/ffi/src')):
    for f in fs:
        if f.endswith('.rs'): names |= set(re.findall(r'\bfn\s+(\w+)', open(os.path.join(d, f)).read()))
open(V + '/contracts/known_fns.txt', 'w').write('\n'.join(sorted(names)) + '\n')
