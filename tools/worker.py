"""Scratch copies of /repo and the harness, for planted bugs and mutants. Not used by any check."""
import json, os, re, shutil, subprocess, sys, time

BASE = json.load(open('/opt/vp/BASELINE.json'))['stable']

class Worker:
    def __init__(self, k, threads=8):
        self.k = k
        self.dir = f'/tmp/w{k}'
        self.repo = f'{self.dir}/repo'
        self.verif = f'{self.dir}/verif'
        self.threads = threads

    def setup(self):
        os.makedirs(self.dir, exist_ok=True)
        if not os.path.exists(self.repo):
            subprocess.check_call(['cp', '-a', '/repo', self.repo])
        else:
            self.sh(f"git checkout -q -- . && git pull -q /repo HEAD 2>/dev/null || git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", self.repo)
        self.sync()

    def sync(self):
        """brings the harness up to date"""
        os.makedirs(self.verif, exist_ok=True)
        subprocess.check_call(['rsync', '-a', '--exclude', 'Cargo.toml', '/verif/harness/', f'{self.verif}/harness/']) if shutil.which('rsync') else \
            subprocess.check_call(f'mkdir -p {self.verif}/harness && cp -au /verif/harness/. {self.verif}/harness/', shell=True)
        t = open('/verif/harness/Cargo.toml').read().replace('"/repo/', f'"{self.repo}/')
        if not os.path.exists(f'{self.verif}/harness/Cargo.toml') or open(f'{self.verif}/harness/Cargo.toml').read() != t:
            open(f'{self.verif}/harness/Cargo.toml', 'w').write(t)
        for f in ('check.sh', 'known_findings.jsonl', 'setup.sh'):
            shutil.copy2(f'/verif/{f}', f'{self.verif}/{f}')

    def sh(self, cmd, cwd, env=None, timeout=900):
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.Popen(['bash', '-c', cmd], cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
            return p.returncode, out.decode('utf-8', 'replace')
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            out, _ = p.communicate()
            return 124, out.decode('utf-8', 'replace')

    def env(self):
        return dict(RUSTUP_TOOLCHAIN='1.88.0', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only',
                    CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', CARGO_TARGET_DIR=f'{self.repo}/target')

    def restore(self):
        self.sh('git checkout -q -- .', self.repo)

    def tests(self):
        """(ok, message): whether it builds and all stable tests pass"""
        j = max(1, self.threads)
        rc, out = self.sh(f'ulimit -v 8000000; cargo test -j{j} --workspace --all-features --no-fail-fast --offline -- --test-threads 4 > {self.dir}/test.log 2>&1', self.repo, self.env(), 150)
        if rc == 124:
            return False, 'tests time out'
        log = open(f'{self.dir}/test.log').read()
        if 'could not compile' in log:
            return False, 'does not compile: ' + '\n'.join(l for l in log.splitlines() if l.startswith('error'))[:300]
        subprocess.run(['python3', '/opt/vp/results.py', f'{self.dir}/t.json', f'cargo:{self.dir}/test.log'])
        passed = set(json.load(open(f'{self.dir}/t.json'))['passed'])
        missing = [t for t in BASE if t not in passed]
        return not missing, f'{len(missing)} tests fail: {missing[:3]}'

    def build_harness(self):
        rc, out = self.sh(f'cargo build -j{self.threads} --offline --release --manifest-path harness/Cargo.toml', self.verif,
                          dict(RUSTUP_TOOLCHAIN='1.88.0', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=f'{self.verif}/target'))
        return rc == 0, out

    def check(self, pid, cases=None, seed=1, tier='quick', timeout=600):
        os.makedirs(f'{self.verif}/evidence', exist_ok=True)
        os.makedirs(f'{self.verif}/replays', exist_ok=True)
        env = dict(VERIF_DIR=self.verif, VERIF_TIER=tier, VERIF_SEED=str(seed), VERIF_THREADS=str(self.threads))
        if cases:
            env['VERIF_CASES'] = str(cases)
        t = time.time()
        rc, out = self.sh(f'ulimit -c 0; ulimit -v 4000000; exec {self.verif}/target/release/cfg-verif-harness run {pid}', self.verif, env, timeout)
        return rc, out, time.time() - t
