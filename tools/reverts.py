"""reverts.py [COMMIT...]: takes every repair back in a scratch copy and runs the checks of the properties it repaired."""
import sys, os, json
sys.path.insert(0, os.path.dirname(__file__))
from worker import Worker
w = Worker(int(os.environ.get('W', 0)))
w.setup()
want = sys.argv[1:]
for line in open('/verif/known_findings.jsonl'):
    f = json.loads(line)
    if f['status'] != 'fixed' or (want and f['commit'] not in want): continue
    c, prop = f['commit'], f['property']
    w.restore()
    rc, out = w.sh(f'git -C /repo show {c} > /tmp/revert.diff; git apply -R -C1 --recount /tmp/revert.diff', w.repo)
    how = ''
    if rc:
        # later commits build on it: take the files as they were before it
        how = '(with the later repairs of its files)'
        w.sh(f'for f in $(git -C /repo show --name-only --format= {c}); do git -C /repo show {c}~:$f > $f; done', w.repo)
    ok, out = w.build_harness()
    if not ok: print(c, prop, 'HARNESS DOES NOT BUILD', [l for l in out.splitlines() if 'error' in l][:3], flush=True); w.restore(); continue
    rc, out, t = w.check(prop)
    print(c, prop, 'CAUGHT' if rc == 1 and f'VIOLATION property={prop}' in out else f'MISSED rc={rc}', f'{t:.1f}s', how, flush=True)
    w.restore()
