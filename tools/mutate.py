"""Mutation campaign over /repo in scratch copies: mutate.py OUT.jsonl [--files a,b] [--workers N] [--max N]
For each mutant which compiles and passes the stable tests: which of the file's checks catch it."""
import os, re, sys, json, random, hashlib, multiprocessing as mp, argparse, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from worker import Worker

PROPS = {
 'cfg-symbol/src/source.rs': 'C15 C14 C19 C23', 'cfg-symbol/src/symbol.rs': 'C15 C23', 'cfg-symbol/src/intern.rs': 'C14 C23',
 'cfg-grammar/src/cfg.rs': 'C27 C26 C01 C02 C10 C08 C25 C15 C03', 'cfg-grammar/src/symbol_bit_set.rs': 'C24 C10',
 'cfg-grammar/src/occurence_map.rs': 'C10 C08', 'cfg-grammar/src/rule_builder.rs': 'C25 C01 C13', 'cfg-grammar/src/precedenced_rule.rs': 'C13 C25 C01',
 'cfg-grammar/src/compare.rs': 'C27', 'cfg-history/src/earley/mod.rs': 'C25 C17 C02 C12 C27 C23', 'cfg-history/src/lib.rs': 'C25 C17 C02',
 'cfg-history/src/earley/rule_dot.rs': 'C25 C27', 'cfg-sequence/src/rewrite.rs': 'C12 C25 C18', 'cfg-sequence/src/builder.rs': 'C12 C25',
 'cfg-sequence/src/lib.rs': 'C12 C25', 'cfg-sequence/src/destination.rs': 'C12', 'cfg-sequence/src/ext.rs': 'C12',
 'cfg-symbol-bit-matrix/src/remap_symbols.rs': 'C14', 'cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs': 'C10 C09 C04 C03',
 'cfg-classify/src/useful.rs': 'C03', 'cfg-classify/src/cyclical.rs': 'C04', 'cfg-classify/src/ll.rs': 'C07', 'cfg-classify/src/lr.rs': 'C11',
 'cfg-classify/src/recursive.rs': 'C09', 'cfg-classify/src/lib.rs': 'C03 C07 C09', 'cfg-generate/src/weighted/random.rs': 'C16 C17',
 'cfg-generate/src/weighted/weighted_rhs_by_lhs.rs': 'C17 C16', 'cfg-predict-distance/src/lib.rs': 'C08 C09', 'cfg-predict-sets/src/first.rs': 'C05 C06 C07',
 'cfg-predict-sets/src/follow.rs': 'C06 C07', 'cfg-predict-sets/src/last.rs': 'C05', 'cfg-predict-sets/src/sets.rs': 'C05 C06 C07', 'cfg-predict-sets/src/cfg_sets_ext.rs': 'C05 C06',
 'cfg-load/src/basic.rs': 'C18 C19 C20', 'cfg-load/src/advanced.rs': 'C20 C21', 'cfg-load/src/string_interner.rs': 'C18 C21', 'cfg-load/src/lib.rs': 'C20',
 'cfg-regexp-logic/src/lib.rs': 'C22 C21', 'cfg-regexp-logic/src/ext.rs': 'C22',
}

SUBS = [(r'<=', ['<']), (r'>=', ['>']), (r'(?<![-=<])>(?![=>])', ['>=']), (r'(?<![<])<(?![=<])', ['<=']), (r'==', ['!=']), (r'!=', ['==']),
        (r'&&', ['||']), (r'\|\|(?=[^)]*[;{])', ['&&']), (r' \+ ', [' - ']), (r' - ', [' + ']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
        (r'\b0\b', ['1']), (r'\b1\b', ['0', '2']), (r'\b2\b', ['1', '3']), (r'\b3\b', ['2']), (r'\.any\(', ['.all(']), (r'\.all\(', ['.any(']),
        (r'\.rev\(\)', ['']), (r'\.skip\(1\)', ['']), (r'\.min\(', ['.max(']), (r'\bcontinue\b', ['break']), (r'\bbreak\b', ['continue']),
        (r'\.first\(\)', ['.last()']), (r'\.last\(\)', ['.first()']), (r'next\(\)', ['next_back()', 'last()']), (r'next_back\(\)', ['next()']),
        (r'\.\.=', ['..']), (r'\bLeft\b', ['Right']), (r'\bRight\b', ['Left']), (r'\.is_none\(\)', ['.is_some()']), (r'\.is_some\(\)', ['.is_none()']),
        (r'(?<=[(= &|])!(?=[\w(])', ['']), (r'\.is_empty\(\)', ['.len() == 1', '.len() < 2']), (r'\bif (?!let)(?=[^{]*\{$)', ['if true || ', 'if false && ']),
        (r'\|=', ['=']), (r'\+=', ['-=', '=']), (r'\bSome\((\w+)\)(?=[,;])', ['None']), (r'saturating_sub', ['wrapping_sub']), (r'wrapping_sub', ['saturating_sub']),
        (r'\.take\(\)', ['', '.clone()']), (r'\b255\b', ['254', '127']), (r'push_front_mut', ['push_front_mut']), (r'\bpush\(', ['insert(0, ']), (r'or_insert\(', ['or_insert(']),
        (r'extend\(', ['extend(']), (r'\.pop\(\)', ['.drain(..1).next()']), (r'pop_front', ['pop_back']), (r'\.sort\(\)', ['.sort_by(|a, b| b.cmp(a))']),
        (r'rhs0', ['rhs1']), (r'rhs1', ['rhs0']), (r'\.start\b', ['.end']), (r'\.end\b', ['.start']), (r'Proper', ['Trailing']), (r'Trailing', ['Proper']), (r'\brow\b', ['col']), (r'lhs_sym', ['rhs_sym']),
        (r'to_internal', ['to_external']), (r'to_external', ['to_internal']), (r'\.before\b', ['.after']), (r'\.after\b', ['.before']), (r'forward', ['backward']), (r'backward', ['forward'])]

def body(path):
    """(line numbers of) code outside comments, tests, derives"""
    lines = open(path).read().split('\n')
    out = []
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith('#[cfg(test)]') or s.startswith('#[test]'):
            break
        if not s or s.startswith('//') or s.startswith('#') or s.startswith('use ') or s.startswith('println!') or 'trace!' in s or 'assert' in s or s.startswith('pub use') or s.startswith('mod ') or s.startswith('pub mod'):
            continue
        out.append(i)
    return lines, out

def mutants(f):
    lines, idx = body('/repo/' + f)
    res = []
    seen = set()
    def add(i, j, new, op):
        old = lines[i:j]
        if old == new: return
        key = (i, tuple(new))
        if key in seen: return
        seen.add(key)
        res.append(dict(file=f, line=i, n=j - i, new=new, old=old, op=op))
    for i in idx:
        l = lines[i]
        code = l.split('//')[0]
        for pat, reps in SUBS:
            for m in re.finditer(pat, code):
                for r in reps:
                    if pat.startswith(r'\bif '):
                        cond = code[m.end():].rstrip()[:-1].strip()
                        new = code[:m.start()] + r + '(' + cond + ') {'
                    else:
                        new = code[:m.start()] + r + code[m.end():]
                    add(i, i + 1, [new], f'{pat}->{r}')
        s = code.strip()
        if s.endswith(';') and not s.startswith('let ') and not s.startswith('return') and not s.startswith('}') and not s.startswith(')') and not s.startswith('.') and not s.startswith('pub ') and '(' in s or re.match(r'^[\w.\[\]()]+ [|+]?= .*;$', s):
            if s.count('(') == s.count(')'):
                add(i, i + 1, [''], 'delete')
    # multi-line statements: from a line which starts a call statement to its closing `);`
    for i in idx:
        s = lines[i].strip()
        ind = len(lines[i]) - len(lines[i].lstrip())
        if re.match(r'^[a-z_][\w.]*(\(|\.|$)', s) and not s.endswith(';') and not s.startswith(('let ', 'if ', 'for ', 'while ', 'match ', 'pub ', 'fn ', 'impl', 'else', 'return', 'loop')):
            for j in range(i + 1, min(i + 12, len(lines))):
                if lines[j].strip().endswith(';') and (len(lines[j]) - len(lines[j].lstrip()) == ind or lines[j].strip().startswith('.')):
                    add(i, j + 1, [''], 'delete-multi')
                    break
                if len(lines[j]) - len(lines[j].lstrip()) < ind and lines[j].strip():
                    break
        # swap with next simple statement
        if s.endswith(';') and i + 1 < len(lines) and lines[i + 1].strip().endswith(';') and len(lines[i + 1]) - len(lines[i + 1].lstrip()) == ind and not s.startswith(('let', 'pub', '}', ')', '.', 'return')) and not lines[i + 1].strip().startswith(('let', 'pub', '}', ')', '.', 'return')):
            add(i, i + 2, [lines[i + 1], lines[i]], 'swap')
    return res

def work(k, q, out, lock, div):
    w = Worker(k, threads=1)
    w.setup()
    env = dict(CARGO_PROFILE_RELEASE_OPT_LEVEL='1', CARGO_PROFILE_RELEASE_DEBUG='0', CARGO_PROFILE_RELEASE_INCREMENTAL='true')
    os.environ.update(env)
    w.restore()
    w.tests(); w.build_harness()
    while True:
        m = q.get()
        if m is None: return
        p = f"{w.repo}/{m['file']}"
        try:
            w.restore()
            lines = open(p).read().split('\n')
            lines[m['line']:m['line'] + m['n']] = m['new']
            open(p, 'w').write('\n'.join(lines))
            ok, msg = w.tests()
            r = dict(m)
            if not ok:
                r['status'] = 'tests' if 'compile' not in msg else 'nocompile'
            else:
                ok, o = w.build_harness()
                if not ok:
                    r['status'] = 'noharness'
                else:
                    r['caught'] = []; r['missed'] = []; r['other'] = []
                    for pid in PROPS[m['file']].split():
                        cases = QUICK[pid] // div
                        rc, o, t = w.check(pid, cases=cases, timeout=300)
                        if rc == 1: r['caught'].append(pid)
                        elif rc == 0: r['missed'].append(pid)
                        else: r['other'].append((pid, rc, o[-200:]))
                    r['status'] = 'caught' if r['caught'] else ('other' if r['other'] else 'ALIVE')
        except Exception as e:
            r = dict(m); r['status'] = 'error ' + repr(e)
        with lock:
            with open(out, 'a') as fo: fo.write(json.dumps(r) + '\n')

QUICK = {}
for i in range(1, 29):
    t = open(f'/verif/harness/src/props/c{i:02}.rs').read()
    QUICK[f'C{i:02}'] = int(re.search(r'quick: ([0-9_]+)', t)[1].replace('_', ''))

if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('out'); ap.add_argument('--files'); ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--max', type=int, default=10**9); ap.add_argument('--per-file', type=int, default=10**9); ap.add_argument('--div', type=int, default=4); ap.add_argument('--seed', type=int, default=0); ap.add_argument('--list', action='store_true'); ap.add_argument('--alive', help='rerun the mutants of this file which no check caught')
    a = ap.parse_args()
    files = a.files.split(',') if a.files else list(PROPS)
    rnd = random.Random(a.seed)
    ms = []
    for f in files:
        x = mutants(f); rnd.shuffle(x)
        ms += x[:a.per_file]
    rnd.shuffle(ms)
    if a.alive:
        alive = {(d['file'], tuple(d['old']), tuple(d['new'])) for d in map(json.loads, open(a.alive)) if d['status'] in ('ALIVE', 'other')}
        ms = [m for f in files for m in mutants(f) if (m['file'], tuple(m['old']), tuple(m['new'])) in alive]
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l); done.add((d['file'], d['line'], tuple(d['new'])))
    ms = [m for m in ms if (m['file'], m['line'], tuple(m['new'])) not in done][:a.max]
    print(len(ms), 'mutants')
    if a.list:
        from collections import Counter
        print(Counter(m['file'] for m in ms)); sys.exit()
    q = mp.Queue(); lock = mp.Lock()
    for m in ms: q.put(m)
    for _ in range(a.workers): q.put(None)
    ps = [mp.Process(target=work, args=(10 + k, q, a.out, lock, a.div)) for k in range(a.workers)]
    [p.start() for p in ps]; [p.join() for p in ps]
