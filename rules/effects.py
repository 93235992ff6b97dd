"""C13: which words may reach the operating system, the heap allocator or a blocking primitive.

Call-graph reachability over resolved, monomorphic MIR (direct calls, drop glue, functions whose
address is taken).  Indirect calls through `fn(&mut VM)` pointers are dispatch to another word, which
is judged under its own name.  Functions that never return (panic paths) are C21's business."""
from runner import rule, library
from vm import AnchorError
import library as reference

# words whose purpose is to talk to the host
IO = set('create-file open-file close-file delete-file file-size file-position reposition-file resize-file '
         'read-file write-file open-source close-source load-line .source-path flush-output flush-to-err'.split())
CLOCK = set('mtime utime (xtime) 0xtime .xtime'.split())
# words that compute: nothing but the machine's own storage
PURE = set('''noop exit lit flit _s" branch 0branch _do _qdo _loop _+loop unloop leave i j >r r> r@ 2>r 2r> 2r@ compile,
_does execute dup drop swap over nip depth ?stacks 0< = < invert and or xor lshift rshift 1+ 1- - + * /mod cell+ cells @ !
char+ here allot aligned align c@ c! move base true false not 0= 0> 0<> > < <> within rot -rot pick 2dup 2drop 2swap 2over / mod
abs negate , handler! error 0error 0stacks reset abort compiling? source-id source-id! source-idx source-idx! pause
activate me suspend resume mtime utime (xtime) 0xtime max-n max-u float+ floats faligned falign pi f! f@ fabs fsin fcos ftan fsincos
fasin facos fatan fatan2 fsqrt fdrop fdup fswap fnip fover frot fpick s>f f>s f+ f- f* f/ f** f~ f0< f0= f< fmin fmax floor fround
fceil fnegate meter mm um deg rad hr minute sec msec usec mm/min mm/sec um/msec rpm hz 1/sec'''.split())
MACHINE = ('run', 'execute_word', 'abort_with', 'check_stacks', 'clear_stacks', 'reset')
# library words that load text from files or wait for another task
LIB_IO = set(r'load-source-file included include \\ ms page accept'.split())


def never(p, f):
    return bool(f.locals) and p.types[f.locals[0]].get('k') == 'never'


def fnrefs(p, o):
    if isinstance(o, tuple) and len(o) == 3 and o[0] == 'k' and isinstance(o[2], int):
        t = p.types.get(o[2], {})
        if t.get('k') == 'fndef' and t.get('inst') is not None:
            yield t['inst']
    elif isinstance(o, (tuple, list)):
        for x in o:
            yield from fnrefs(p, x)


class Graph:
    def __init__(self, p):
        self.p, self.out, self.ind = p, {}, {}

    def callees(self, f):
        if f.id in self.out:
            return self.out[f.id]
        out, ind = set(), 0
        if f.raw is not None or f.blocks is not None:
            for st, term in self.p.compile(f):
                if term[0] in ('call', 'drop'):
                    if isinstance(term[-1], int):
                        out.add(term[-1])
                    elif term[0] == 'call':
                        ind += 1
                if term[0] == 'call':
                    out |= set(fnrefs(self.p, term[3]))
                for s in st:
                    if s[0] == 'asg':
                        out |= set(fnrefs(self.p, s[2]))
        self.out[f.id], self.ind[f.id] = out, ind
        return out

    def reach(self, fid):
        seen, w = {fid: None}, [fid]
        while w:
            x = w.pop()
            f = self.p.fns[x]
            if x != fid and (effect(self.p, f) or is_panic(self.p, f)):
                continue
            for y in self.callees(f):
                if y not in seen:
                    seen[y] = x
                    w.append(y)
        return seen

    def path(self, seen, y):
        out = []
        while y is not None:
            out.append(self.p.fns[y].name)
            y = seen[y]
        return ' -> '.join(reversed(out))


PANIC = ('core::panicking', 'std::panicking', 'core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed',
         'alloc::raw_vec::handle_error', 'alloc::raw_vec::capacity_overflow', 'alloc::alloc::handle_alloc_error', 'core::str::slice_error_fail')
SYSTEM = ('std::fs::', 'std::sys::fs', 'std::sys::pal', 'std::sys::stdio', 'std::io::_print', 'std::io::_eprint', 'std::io::stdio', 'std::io::stdin', 'std::process',
          'std::sys::process', 'std::thread', 'std::sys::thread', 'std::net', 'std::sys::net', 'std::env', 'std::sys::env', 'std::os', 'libc::', 'page_size::',
          'std::io::', 'std::path', 'core::sync::atomic::spin', 'std::sys::io')
BLOCK = ('std::sync', 'std::sys::sync', 'core::hint::spin_loop', 'std::thread::sleep', 'std::sys::futex')
TIME = ('std::time', 'std::sys::time')
HEAP = ('__rust_alloc', '__rust_alloc_zeroed', '__rust_realloc', '__rust_dealloc', '__rust_no_alloc_shim_is_unstable_v2')


def is_panic(p, f):
    n = f.name.split('::<')[0]
    return not f.local and never(p, f) and not any(n.startswith(x) for x in ('std::process', 'std::thread')) \
        or any(n.startswith(x) for x in PANIC)


def effect(p, f):
    """what a leaf of the call graph does to the world outside the machine"""
    if f.local or f.intrinsic:
        return None
    n = f.name
    if n.startswith('<'):
        n = n[1:]
    if is_panic(p, f):
        return None
    if f.base in HEAP:
        return 'heap'
    for k, l in (('block', BLOCK), ('clock', TIME), ('system', SYSTEM)):
        if any(n.startswith(x) for x in l):
            bodiless = f.raw is None and f.blocks is None
            if bodiless or f.crate == 'std':
                return k
    if f.crate == 'std' and f.raw is None and f.blocks is None and 'cmath' not in n and 'f64' not in n:
        return 'system'
    return None


@rule('C13', 'call-graph effects')
def _(ctx, out, tier):
    p = ctx.W.p
    G = Graph(p)
    roots = [(w.name, w.fid) for w in ctx.words]
    for m in MACHINE:
        try:
            roots.append((m + '()', ctx.W.resolve('fn:' + m)[0]))
        except AnchorError:
            out.notes.append('machine function %s not found' % m)
    fns = set()
    system = {}
    for name, fid in roots:
        seen = G.reach(fid)
        fns |= {y for y in seen if p.fns[y].local}
        eff = {}
        for y in seen:
            k = effect(p, p.fns[y])
            if k:
                eff.setdefault(k, y)
        low = name.lower()
        pure = low in PURE or name.endswith('()')
        for k in ('system', 'block', 'clock', 'heap'):
            if k == 'heap' and not pure or k in ('system', 'clock', 'block') and low in IO or k == 'clock' and low in CLOCK:
                continue
            if k in eff:
                y = eff[k]
                what = {'system': 'makes a system call', 'block': 'can block', 'clock': 'reads the host clock', 'heap': 'uses the heap allocator'}[k]
                # the construct: last function of this crate on the path
                z = y
                while seen[z] is not None and not p.fns[z].local:
                    z = seen[z]
                out.bad('%s: %s' % (name, what), ctx.span(z), '%s %s: %s' % (name, what, G.path(seen, y)))
            else:
                out.ok()
        system[low] = {k for k in eff if k in ('system', 'block')}
    out.functions |= {p.fns[y].name for y in fns}
    out.sample('%d words, %d machine functions, %d crate functions reached' % (len(ctx.words), len(roots) - len(ctx.words), len(fns)))
    def names(d):
        got = set()

        def go(x):
            if isinstance(x, tuple) and len(x) > 1 and x[0] in ('w', 'xt', 'postpone') and isinstance(x[1], str):
                got.add(x[1].lower())
            elif isinstance(x, (tuple, list)):
                for y in x:
                    go(y)
        go(d.body)
        go(d.does)
        if d.kind == 'defer':
            go(d.cells.get(0))
        return got
    # the Forth library inherits the effects of what it uses
    L = library(ctx)
    memo = {}

    def closure(n, trail=()):
        if n in memo:
            return memo[n]
        if n in trail:
            return set()
        d = L.defs.get(n)
        if d is None:
            return {n} if system.get(n) else set()
        r = set()
        for u in names(d):
            if u != n:
                r |= closure(u, trail + (n,))
        if not trail:
            memo[n] = r
        return r
    for d in L.order:
        r = closure(d.name)
        # words that are not documented matter only through those that use them
        if r and d.name not in LIB_IO and (d.name in reference.LIB or d.name in reference.CONSTANTS):
            out.bad('%s: library word makes system calls' % d.name, 'core.fth:%d' % d.line, 'uses %s' % ' '.join(sorted(r)))
        else:
            out.ok()
