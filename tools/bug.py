"""bug.py ID: validates /verif/seeded/ID in a scratch copy and runs its property's check (or those named) against it."""
import sys, os, json, subprocess
sys.path.insert(0, os.path.dirname(__file__))
from worker import Worker
w = Worker(int(os.environ.get("WORKER", "0")))
w.setup()
ids = sys.argv[1:]
notest = '--notest' in ids
ids = [i for i in ids if not i.startswith('--')]
for bid in ids:
    d = f'/verif/seeded/{bid}'
    prop = json.load(open(f'{d}/meta.json'))['property']
    w.restore()
    if not notest:
        rc, out = w.sh(f'bash {d}/demo.sh', w.repo)
        if rc != 0: print(bid, 'DEMO FAILS ON CLEAN', out[-1500:]); continue
    rc, out = w.sh(f'git apply {d}/patch.diff', w.repo)
    if rc: print(bid, 'PATCH DOES NOT APPLY', out); continue
    if not notest:
        ok, msg = w.tests()
        if not ok: print(bid, 'TESTS', msg); w.restore(); continue
        rc, out = w.sh(f'bash {d}/demo.sh', w.repo)
        if rc == 0: print(bid, 'DEMO PASSES WITH BUG'); w.restore(); continue
        demo = [l for l in out.splitlines() if 'panicked' in l or 'error' in l]
    ok, out = w.build_harness()
    if not ok: print(bid, 'HARNESS DOES NOT BUILD', out[-2000:]); w.restore(); continue
    rc, out, t = w.check(prop)
    print(bid, prop, 'CAUGHT' if rc == 1 and f'VIOLATION property={prop}' in out else f'MISSED rc={rc}', f'{t:.1f}s', '' if notest else demo[:1], flush=True)
    if rc not in (0, 1): print(out[-800:])
    w.restore()
