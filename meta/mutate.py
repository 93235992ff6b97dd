"""Development tool: systematic small mutations of the Rust sources.

mutate.py list FILE            count the mutants
mutate.py run OUT FILE[:fn] ...  [--every N] [--offset K]
Each mutant is compiled by the extraction driver in a scratch copy; only the tasks whose baseline run entered a function whose MIR
changed are run again.  A mutant no task objects to is then given to the repository's tests; what passes those too is listed in OUT."""
import hashlib
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, d) for d in ('meta', 'lib', 'engine', 'specs', 'rules')]
ROOT = '/tmp/mut'

SWAPS = [(r' == ', ' != '), (r' != ', ' == '), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' < ', ' > '), (r' \+ ', ' - '),
         (r' - ', ' + '), (r' \* ', ' / '), (r' \+= ', ' -= '), (r' -= ', ' += '), (r' && ', ' || '), (r' \|\| ', ' && '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
         (r'wrapping_add', 'wrapping_sub'), (r'wrapping_sub', 'wrapping_add'), (r'\.min\(', '.max('), (r'\.max\(', '.min('),
         (r' & ', ' | '), (r' \| ', ' & '), (r'\.\.=', '..'), (r'\bif (?!let)(.*) \{$', r'if !(\1) {'), (r'\bwhile (?!let)(.*) \{$', r'while !(\1) {'),
         (r'TRUE\b', 'FALSE'), (r'FALSE\b', 'TRUE'), (r'push2\(([^,()]+), ([^,()]+)\)', r'push2(\2, \1)'), (r'\bs_stack\(\)', 'r_stack()'), (r'is_some', 'is_none'),
         (r'is_none', 'is_some'), (r'\.ceil', '.floor'), (r'start\(\)', 'limit()'), (r'limit\(\)', 'start()'), (r'push3\(([^,()]+), ([^,()]+), ([^,()]+)\)', r'push3(\1, \3, \2)'),
         (r'Ordering::Less', 'Ordering::Greater'), (r'unwrap_or\(([^()]*)\)', r'unwrap_or(Default::default())'), (r'\bfrom_utf8\b', 'from_utf8'), (r'as u8', 'as u16 as u8')]
EXC = re.compile(r'\b((?:[A-Z]+_)+(?:[A-Z]+)|ABORT|QUIT)\b')


def nontest(text):
    i = text.find('#[cfg(test)]')
    return text if i < 0 else text[:i]


def mutants(path):
    text = open(path).read()
    body = nontest(text)
    out = []
    lines = body.split('\n')
    fn = None
    off = 0
    for n, l in enumerate(lines):
        m = re.match(r'\s*(?:pub )?(?:unsafe )?(?:extern "\w+" )?fn (\w+)', l)
        if m:
            fn = m.group(1)
        s = l.strip()
        if s.startswith(('//', 'use ', '#[', 'fn ', 'pub fn', 'unsafe fn', 'pub unsafe fn', 'impl', 'pub trait', 'const ', 'mod ', 'pub mod')) or fn is None or not s:
            off += len(l) + 1
            continue
        code = l.split(' // ')[0]

        def add(a, b, new, kind):
            out.append(dict(file=path, line=n + 1, fn=fn, kind=kind, a=off + a, b=off + b, old=text[off + a:off + b], new=new, src=s))
        for pat, rep in SWAPS:
            for m in re.finditer(pat, code):
                new = m.expand(rep) if '\\' in rep else rep
                if new != m.group(0):
                    add(m.start(), m.end(), new, 'swap')
        for m in re.finditer(r'(?<![\w."])(\d+)(?![\w.])', code):
            if code[:m.start()].count('"') % 2 == 0:
                v = int(m.group(1))
                add(m.start(), m.end(), str(v + 1), 'const')
                if v:
                    add(m.start(), m.end(), str(v - 1), 'const')
        for m in re.finditer(r'(?<![\w."])(\d+\.\d+)(?![\w.])', code):
            add(m.start(), m.end(), str(float(m.group(1)) + 1), 'const')
        if re.match(r'[\w.()&*\[\]]+.*;$', s) and not s.startswith(('let ', 'return', '}', 'mem::size')) and s.count('(') == s.count(')') and s.count('{') == s.count('}'):
            add(len(l) - len(l.lstrip()), len(l), '', 'delete')
        for m in EXC.finditer(code):
            if 'Exception' in code or 'abort_with' in code or 'EXCEPTION' in m.group(1) or '_ERROR' in m.group(1):
                add(m.start(), m.end(), 'UNSUPPORTED_OPERATION' if m.group(1) != 'UNSUPPORTED_OPERATION' else 'UNDEFINED_WORD', 'exc')
        if re.search(r'"[^"]+"', code):
            for m in re.finditer(r'"([^"\\]+)"', code):
                add(m.start(), m.end(), '"' + m.group(1) + 'q"', 'str')
        off += len(l) + 1
    return out


def norm(prog, f):
    ts = prog.types

    def ty(t):
        return ts[t]['s'] if isinstance(t, int) and t in ts else str(t)

    def alloc(i):
        a = prog.allocs.get(i)
        return json.dumps(a, sort_keys=True)[:3000] if a is not None else '?'

    def go(x):
        if isinstance(x, dict):
            o = {}
            for k, v in x.items():
                if k in ('span', 'source_info', 'fn_span', 'user_ty', 'calls', 'var_debug_info', 'id', 'StorageLive', 'StorageDead'):
                    continue
                if k == 'ty':
                    o[k] = ty(v)
                elif k == 'Field' and isinstance(v, list):
                    o[k] = v[0]
                elif k == 'Cast':
                    o[k] = [go(v[0]), go(v[1]), ty(v[2])]
                elif k == 'Adt':
                    o[k] = go(v[1:2])
                elif k == 'ptrs':
                    o[k] = [alloc(y[1]) if isinstance(y, list) and len(y) > 1 and isinstance(y[1], int) else str(y) for y in v]
                else:
                    o[k] = go(v)
            return o
        if isinstance(x, list):
            return [go(v) for v in x]
        return x
    calls = sorted((k, prog.fns[v].name if isinstance(v, int) and v < len(prog.fns) else str(v)) for k, v in (f.raw.get('calls') or {}).items())
    return hashlib.md5((json.dumps(go(f.raw), sort_keys=True) + str(calls)).encode()).hexdigest()


def bodies(prog):
    d = {}
    for f in prog.fns:
        if f.raw is not None and f.local:
            d.setdefault(f.name, []).append(norm(prog, f))
    return {k: tuple(sorted(v)) for k, v in d.items()}


VIS = set()


def record():
    import interp
    old = interp.Frame.__init__

    def init(self, f, *a, **k):
        VIS.add(f.name)
        old(self, f, *a, **k)
    interp.Frame.__init__ = init


def vtask(t):
    import runner
    VIS.clear()
    t0 = time.time()
    kind, r = runner.task(t)
    return t, sorted(VIS), time.time() - t0, len(r['viol'])


def all_tasks():
    import runner
    seen, owner = [], {}
    for i in range(1, 26):
        p = 'C%02d' % i
        for t in runner.tasks_for(p, 'quick'):
            if t not in owner:
                seen.append(t)
            owner.setdefault(t, []).append(p)
    return seen, owner


def baseline():
    import runner
    import extract
    path = ROOT + '/baseline.json'
    key = extract.tree_hash() + hashlib.md5(''.join(open(os.path.join(HERE, d, f)).read() for d in ('lib', 'engine', 'specs', 'rules')
                                                    for f in sorted(os.listdir(os.path.join(HERE, d))) if f.endswith('.py')).encode()).hexdigest()
    if os.path.exists(path):
        b = json.load(open(path))
        if b['key'] == key:
            return b
    record()
    ctx = runner.Ctx(os.environ.get('DUMP', '/tmp/dump/rtforth.lib.json'))
    runner.CTX = ctx
    ts, owner = all_tasks()
    with mp.get_context('fork').Pool(8) as pool:
        res = pool.map(vtask, ts, chunksize=1)
    b = dict(key=key, bodies=bodies(ctx.W.p), vis=[[t, v, s] for t, v, s, n in res])
    json.dump(b, open(path, 'w'))
    return b


class Worker:
    def __init__(self, k):
        import extract
        self.dir = '%s/w%d' % (ROOT, k)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.src = self.dir + '/src'
        extract.copy_sources(self.src)
        self.dump = self.dir + '/dump'
        os.makedirs(self.dump)
        e = extract.env_base()
        e['LD_LIBRARY_PATH'] = os.path.join(extract.sysroot(), 'lib')
        e['RTF_DUMP_DIR'] = self.dump
        e['CARGO_TARGET_DIR'] = self.dir + '/target'
        e['RUSTC_WORKSPACE_WRAPPER'] = extract.driver()
        e['CARGO_INCREMENTAL'] = '0'
        e['CARGO_PROFILE_DEV_DEBUG'] = '0'
        self.env = e
        t = extract.env_base()
        t.update(RUSTUP_TOOLCHAIN='nightly-x86_64-unknown-linux-gnu', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TARGET_DIR=self.dir + '/ttarget')
        self.tenv = t

    def extract(self):
        p = self.dump + '/rtforth.lib.json'
        if os.path.exists(p):
            os.remove(p)
        r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '-p', 'rtforth', '--lib', '--manifest-path', self.src + '/Cargo.toml'],
                           env=self.env, cwd=self.src, capture_output=True, text=True)
        return p if r.returncode == 0 and os.path.exists(p) else None

    def test(self):
        r = subprocess.run('timeout 120 cargo test --offline --lib --tests --no-fail-fast -- --test-threads 4 2>&1', shell=True, env=self.tenv, cwd=self.src, capture_output=True, text=True)
        fails = re.findall(r'^test (\S+) \.\.\. FAILED', r.stdout, re.M)
        return r.returncode, fails, r.stdout[-300:]


WK = None
BASE = None
ALLT = None


def init(q, base):
    global WK, BASE, ALLT
    WK = Worker(q.get())
    BASE = base
    sys.setrecursionlimit(20000)


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, list) else x


def one(m):
    import runner
    rel = os.path.relpath(m['file'], '/repo')
    dst = os.path.join(WK.src, rel)
    text = open(m['file']).read()
    new = text[:m['a']] + m['new'] + text[m['b']:]
    open(dst, 'w').write(new)
    t0 = time.time()
    try:
        p = WK.extract()
        if p is None:
            return m, 'nocompile', None, time.time() - t0
        os.environ['RTF_REPO'] = WK.src
        ctx = runner.Ctx(p)
        runner.CTX = ctx
        b = bodies(ctx.W.p)
        old = BASE['bodies']
        changed = {k for k in set(b) | set(old) if b.get(k) != tuple(old.get(k, ()))}
        if not changed:
            return m, 'same-mir', None, time.time() - t0
        sel = [(tup(t), s) for t, v, s in BASE['vis'] if changed & set(v)]
        fallback = False
        regw = [c for c in changed if c not in {f for _, v, _ in BASE['vis'] for f in v}]
        sel = [x for x in sel if x[0][0] != 'rule'] + [(tup(t), s) for t, v, s in BASE['vis'] if t[0] == 'rule' and t[1][0] != 'C12']
        sel.sort(key=lambda x: (x[0][0] == 'rule', x[1]))
        und = []
        for t, s in sel:
            if time.time() - t0 > 400:
                und.append('time')
                break
            kind, r = runner.task(t)
            if r.get('skip'):
                continue
            if r['viol']:
                return m, 'caught', '%s %s' % (t[:2], r['viol'][0]['key'][:80]), time.time() - t0
            if r['und'] or r.get('anchor') or r.get('err'):
                und.append('%s: %s' % (t[1][:2], str(r.get('anchor') or r.get('err') or r['und'][0])[:160]))
        rc, fails, tail = WK.test()
        if rc == 0:
            return m, 'SURVIVED', dict(changed=sorted(changed)[:4], tasks=len(sel), und=und[:4]), time.time() - t0
        return m, 'tests', fails[:2] or tail, time.time() - t0
    except Exception as e:
        import traceback
        return m, 'ERROR', traceback.format_exc()[-600:], time.time() - t0
    finally:
        open(dst, 'w').write(text)


def main():
    cmd = sys.argv[1]
    every, offset = 1, 0
    for a in sys.argv:
        if a.startswith('--every='):
            every = int(a[8:])
        if a.startswith('--offset='):
            offset = int(a[9:])
    files = [a for a in sys.argv[2 if cmd == 'list' else 3:] if not a.startswith('--')]
    ms = []
    for f in files:
        fn = None
        if ':' in f:
            f, fn = f.split(':')
        ms += [m for m in mutants('/repo/' + f) if fn is None or m['fn'] in fn.split(',')]
    ms = ms[offset::every]
    if cmd == 'list':
        from collections import Counter
        print(len(ms), Counter(m['kind'] for m in ms))
        return
    import runner
    runner.load_modules()
    base = baseline()
    q = mp.Manager().Queue()
    for i in range(8):
        q.put(i)
    out = open(sys.argv[2], 'a')
    from collections import Counter
    c = Counter()
    with mp.get_context('fork').Pool(8, initializer=init, initargs=(q, base)) as pool:
        for m, res, info, s in pool.imap_unordered(one, ms):
            c[res] += 1
            if res in ('SURVIVED', 'ERROR'):
                out.write('%s %s:%d [%s] %s\n    %r -> %r\n    %s\n' % (res, m['file'], m['line'], m['fn'], m['src'], m['old'], m['new'], json.dumps(info)))
                out.flush()
            if sum(c.values()) % 50 == 0:
                print(dict(c), flush=True)
    out.write('TOTAL %s %s\n' % (files, dict(c)))
    print(dict(c))
    for i in range(8):
        shutil.rmtree('%s/w%d' % (ROOT, i), ignore_errors=True)


if __name__ == '__main__':
    main()
