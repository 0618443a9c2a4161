"""rates.py [ID...]: for each planted bug, over several seeds of its property's quick check: caught or not, and at which case. Not used by any check."""
import sys, os, json, re
sys.path.insert(0, os.path.dirname(__file__))
from worker import Worker
w = Worker(int(os.environ.get("WORKER", "0")))
w.setup()
ids = sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
for bid in ids:
    d = f'/verif/seeded/{bid}'
    prop = json.load(open(f'{d}/meta.json'))['property']
    w.restore()
    rc, out = w.sh(f'git apply {d}/patch.diff', w.repo)
    if rc: print(bid, 'PATCH DOES NOT APPLY', out); continue
    ok, out = w.build_harness()
    if not ok: print(bid, 'HARNESS DOES NOT BUILD', out[-2000:]); w.restore(); continue
    at = []
    for seed in (1, 2, 3):
        rc, out, t = w.check(prop, seed=seed)
        if rc == 1 and f'VIOLATION property={prop}' in out:
            try: at.append(json.load(open(f'{w.verif}/replays/{prop}-seed{seed}.json'))['index'])
            except Exception: at.append('?')
        else:
            at.append(f'MISS rc={rc}')
    print(bid, prop, at, flush=True)
    w.restore()
