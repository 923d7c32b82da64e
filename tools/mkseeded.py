#!/usr/bin/env python3
"""Writes /verif/seeded from mutants.py and demos/ (all, or the ids given)."""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from mutants import M
repo = '/repo'
out = os.path.join(here, '..', 'seeded')
for id, d in M.items():
    demo = os.path.join(here, 'demos', id + '.go')
    if len(sys.argv) > 1 and id not in sys.argv[1:]:
        continue
    if not os.path.exists(demo):
        print(id, 'has no demo')
        continue
    p = os.path.join(repo, d['file'])
    old = open(p).read()
    new = old
    for a, b in d['edits']:
        assert new.count(a) >= 1, (id, a)
        new = new.replace(a, b, 1)
    with tempfile.NamedTemporaryFile('w', suffix='.go') as t:
        t.write(new)
        t.flush()
        diff = subprocess.run(['diff', '-u', '--label', 'a/' + d['file'], '--label', 'b/' + d['file'], p, t.name], capture_output=True, text=True).stdout
    dst = os.path.join(out, id)
    os.makedirs(dst, exist_ok=True)
    open(os.path.join(dst, 'patch.diff'), 'w').write(diff)
    shutil.copy(demo, os.path.join(dst, 'main.go.txt'))
    for f in ('demo.sh', 'kit.go.txt', 'info.go.txt'):
        shutil.copy(os.path.join(here, 'demos', f), os.path.join(dst, f))
    os.chmod(os.path.join(dst, 'demo.sh'), 0o755)
    json.dump({'property': d['prop'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(os.path.join(dst, 'meta.json'), 'w'), indent=1)
