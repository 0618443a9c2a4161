"""Writes /verif/seeded/<id>/ from the table in seeds_*.py: (id, property, [(file, old, new)...], needs, breaks, main.rs)."""
import os, sys, json, shutil, subprocess, glob
sys.path.insert(0, os.path.dirname(__file__))
from worker import Worker
w = Worker(int(os.environ.get("WORKER", "0"))); w.setup()
SEEDS = []
for f in sorted(glob.glob(os.path.dirname(os.path.abspath(__file__)) + '/seeds_*.py')):
    exec(open(f).read())
only = set(sys.argv[1:])
PRE = open(os.path.dirname(os.path.abspath(__file__)) + '/demo/prelude.rs').read()
for (bid, prop, edits, needs, breaks, main) in SEEDS:
    if only and bid not in only: continue
    w.restore()
    for (f, old, new) in edits:
        p = f'{w.repo}/{f}'
        t = open(p).read()
        assert t.count(old) == 1, (bid, f, t.count(old))
        open(p, 'w').write(t.replace(old, new))
    rc, diff = w.sh('git diff', w.repo)
    d = f'/verif/seeded/{bid}'
    os.makedirs(d, exist_ok=True)
    open(f'{d}/patch.diff', 'w').write(diff)
    open(f'{d}/main.rs', 'w').write(PRE + main.strip() + '\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
    for x in ('demo.sh', 'Cargo.toml.in', 'Cargo.lock'):
        shutil.copy2(os.path.dirname(os.path.abspath(__file__)) + '/demo/' + x, f'{d}/{x}')
    w.restore()
    print('wrote', bid)
