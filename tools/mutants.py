#!/usr/bin/env python3
"""Sensitivity of the checks to small source changes, in scratch copies.

usage: mutants.py run OUT.jsonl [workers] [scale] [part/parts]   every generated mutant
       mutants.py revert OUT.jsonl                               each fix: commit undone
A mutant that compiles and passes the repository's tests is given to the checks
(at a fraction of the quick counts) until one reports it (all of them with ALL=1).
Mutants already listed in OUT.jsonl are not run again.
Nothing under /repo is touched; scratch copies live in /tmp/vp_mut and are removed.
"""
import json, os, re, shutil, subprocess, sys, threading, queue
V = '/verif'; ROOT = '/tmp/vp_mut'
FILES = ['src/tensor.rs', 'src/tensor/helper.rs', 'src/tensor/operations/convolution.rs', 'src/layer.rs',
         'src/layer/convolutional.rs', 'src/layer/fully_connected.rs', 'src/layer/max_pool.rs',
         'src/layer/softmax.rs', 'src/network.rs']
SUBS = [(r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' / ', ' * '), (r' % ', ' / '), (r' >= ', ' > '),
        (r' > ', ' >= '), (r' < ', ' <= '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '),
        (r'\b0\.0\b', '1.0'), (r'\b1\.0\b', '0.0'), (r'\b1\b(?!\.)', '0'), (r'\b1\b(?!\.)', '2'), (r'(?<![.\w])0\b(?!\.)', '1'),
        (r'\.di\b', '.dj'), (r'\.dj\b', '.di'), (r'\.dk\b', '.di'), (r'\bi: i\b', 'i: j'), (r'\bj: j\b', 'j: i'), (r'\bk: k\b', 'k: 0'),
        (r'Training', 'Inference'), (r'Inference', 'Training'), (r'\+=', '='), (r'\+=', '-='), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
        (r'\?;', '.ok();'), (r'\.max\(', '.min('), (r'\.min\(', '.max('), (r'\.rev\(\)', ''), (r'\bi \+ 1\b', 'i'),
        (r'0\.\.(\w[\w.]*)', r'1..\1'), (r'0\.\.(\w[\w.]*)', r'0..(\1 - 1)'), (r'\.clone\(\);', '.clone(); // \n'), ]
def body(s):
    return s.split('#[cfg(test)]')[0]
def generate():
    for f in FILES:
        s = open(f'/repo/{f}').read(); lines = body(s).split('\n'); off = 0
        hook = False
        for n, l in enumerate(lines):
            t = l.strip()
            if 'verif_hooks' in t: hook = True
            if not t or t.startswith(('//', '#', 'use ', 'pub mod', 'mod ')) or hook:
                if t == '}': hook = False
                continue
            seen = set()
            for pat, rep in SUBS:
                for m in re.finditer(pat, l):
                    if '"' in l[:m.start()] and not l.rstrip().endswith(('{', ';')): continue
                    if l[:m.start()].count('"') % 2: continue
                    new = l[:m.start()] + m.expand(rep) + l[m.end():]
                    if new != l and new not in seen and '// \n' not in new:
                        seen.add(new); yield f, n, l, new
            if t.endswith(';') and not t.startswith(('let ', 'return', '}', 'use')) and l.count('(') == l.count(')'):
                yield f, n, l, '// ' + t
            if t.startswith('return Err(') and t.endswith(';'): yield f, n, l, '{}'
            if t == 'return;' : yield f, n, l, ''
def sh(cmd, cwd, env=None, t=900):
    try: return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, timeout=t)
    except subprocess.TimeoutExpired: return None
class W:
    def __init__(self, n, scale):
        self.d = f'{ROOT}/{n}'; os.makedirs(self.d); self.scale = scale
        shutil.copytree('/repo', f'{self.d}/repo', ignore=shutil.ignore_patterns('target'))
        sh(['git', 'checkout', '-q', '--', '.'], f'{self.d}/repo')
        shutil.copytree(f'{V}/harness', f'{self.d}/harness', ignore=shutil.ignore_patterns('target'))
        p = f'{self.d}/harness/Cargo.toml'; s = open(p).read().replace('path = "/repo"', f'path = "{self.d}/repo"'); open(p, 'w').write(s)
        self.env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0', VERIF_DIR=self.d,
                        VERIF_SCALE=str(scale), VERIF_THREADS='2', VERIF_SEED='1', VERIF_TIER='quick')
        os.makedirs(f'{self.d}/evidence'); os.makedirs(f'{self.d}/replays')
    def tests(self):
        r = sh(['cargo', 'test', '--offline', '-q'], f'{self.d}/repo', dict(self.env, CARGO_TARGET_DIR=f'{self.d}/t1'), 120)
        if r is None: return 'hang'
        if r.returncode == 0: return 'pass'
        return 'build' if 'could not compile' in r.stdout else 'killed'
    def checks(self):
        e = dict(self.env, CARGO_TARGET_DIR=f'{self.d}/t2', RUSTFLAGS='--cfg verif_hooks')
        r = sh(['cargo', 'build', '--offline', '--release', '--bin', 'vh'], f'{self.d}/harness', e)
        if r.returncode:
            return ['nobuild']
        out = []
        for i in range(1, 33):
            c = 'C%02d' % i
            r = sh([f'{self.d}/t2/release/vh', 'check', c], self.d, self.env)
            if r is None: out.append(c + '?'); continue
            if r.returncode == 1 and f'VIOLATION property={c}' in r.stdout:
                out.append(c)
                if not os.environ.get('ALL'): break
            elif r.returncode: out.append(c + '!%d' % r.returncode)
        return out
def main():
    mode, outp = sys.argv[1], sys.argv[2]
    workers = int(sys.argv[3]) if len(sys.argv) > 3 else 3
    scale = float(sys.argv[4]) if len(sys.argv) > 4 else 0.05
    part, parts = map(int, sys.argv[5].split('/')) if len(sys.argv) > 5 else (0, 1)
    subprocess.run(['rm', '-rf', ROOT]); q = queue.Queue(); lock = threading.Lock()
    if mode == 'run':
        ms = list(generate())
        done = set()
        if os.path.exists(outp):
            for l in open(outp):
                r = json.loads(l); done.add((r.get('file'), r.get('line'), r.get('old'), r.get('new')))
        for x, m in enumerate(ms):
            if x % parts == part and (m[0], m[1] + 1, m[2].strip(), m[3].strip()) not in done: q.put(m)
    else:
        for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s', 'c5854bd..HEAD'], stdout=subprocess.PIPE, text=True).stdout.splitlines():
            if 'fix:' in l: q.put(l)
    print(q.qsize(), 'mutants', flush=True); fo = open(outp, 'a')
    def work(n):
        w = W(n, scale)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            sh(['git', 'checkout', '-q', '-f', 'HEAD'], f'{w.d}/repo')
            if mode == 'run':
                f, ln, old, new = m; p = f'{w.d}/repo/{f}'; L = open(p).read().split('\n'); assert L[ln] == old; L[ln] = new
                open(p, 'w').write('\n'.join(L)); rec = {'file': f, 'line': ln + 1, 'old': old.strip(), 'new': new.strip()}
            else:
                h = m.split()[0]; r = sh(['git', 'revert', '--no-commit', h], f'{w.d}/repo'); rec = {'fix': m}
                if r.returncode:
                    sh(['git', 'revert', '--abort'], f'{w.d}/repo'); sh(['git', 'checkout', '-q', '-f', 'HEAD'], f'{w.d}/repo'); rec['result'] = 'conflict'
                    with lock: fo.write(json.dumps(rec) + '\n'); fo.flush()
                    continue
            rec['tests'] = w.tests()
            if rec['tests'] == 'pass': rec['checks'] = w.checks()
            if mode == 'revert': sh(['git', 'reset', '-q', '--hard', 'HEAD'], f'{w.d}/repo')
            with lock: fo.write(json.dumps(rec) + '\n'); fo.flush()
    ts = [threading.Thread(target=work, args=(n,)) for n in range(workers)]
    [t.start() for t in ts]; [t.join() for t in ts]
    subprocess.run(['rm', '-rf', ROOT])
main()
