"""C27: no state outside the machine a function is given; the data space is allocated and released once."""
from runner import rule
from spec import *

CELLS = ('UnsafeCell',)
# filled once by a computation that sees no machine
LAZY = ('std::sync::LazyLock', 'std::cell::LazyCell')


def shared_cell(p, ty, seen=None):
    """the interior-mutable type inside `ty`, if any"""
    seen = seen if seen is not None else set()
    if ty in seen:
        return None
    seen.add(ty)
    t = p.types.get(ty, {})
    s = t.get('s', '')
    if t.get('k') == 'adt':
        if t.get('name', '').split('::')[-1] in CELLS:
            return s
        for v in t.get('variants', ()):
            for _, ft in v['fields']:
                r = shared_cell(p, ft, seen)
                if r:
                    return s
    for k in ('elem', 'to', 'upvars'):
        if isinstance(t.get(k), int):
            r = shared_cell(p, t[k], seen)
            if r:
                return r
    for e in t.get('elems', ()) or ():
        r = shared_cell(p, e, seen)
        if r:
            return r
    return None


def lazily(p, ty):
    """the content of a static that is filled once by a closure without captures"""
    t = p.types.get(ty, {})
    if t.get('k') == 'adt' and t['s'].split('<')[0] in LAZY:
        a = [x for x in t.get('args', ()) if isinstance(x, int)]
        return a[0] if a else None
    return None


def consts(o):
    """constants (kind, type) inside a compiled statement or terminator"""
    if isinstance(o, tuple) and len(o) == 3 and o[0] == 'k' and isinstance(o[2], int):
        yield o
    elif isinstance(o, (tuple, list)):
        for x in o:
            yield from consts(x)


def pointees(p, kind):
    if isinstance(kind, dict) and 'Allocated' in kind:
        for _, a in kind['Allocated'].get('provenance', {}).get('ptrs', ()):
            yield a


@rule('C27', 'no state outside the machine')
def _(ctx, out, tier):
    p = ctx.W.p
    for f in list(p.fns):
        if f is None or not f.local or (f.raw is None and f.blocks is None):
            continue
        out.functions.add(f.name)
        bad = False
        for st, term in p.compile(f):
            for x in list(st) + [term]:
                if x[0] == 'asg' and isinstance(x[2], tuple) and x[2][0] in ('tls', 'unk') and 'ThreadLocal' in str(x[2]):
                    out.bad('%s: thread-local state' % f.name, where(p, f, x), 'reads or writes a thread-local variable')
                    bad = True
                if x[0] == 'call' and isinstance(x[6], int) and 'std::thread::LocalKey' in p.fns[x[6]].name:
                    out.bad('%s: thread-local state' % f.name, where(p, f, x), 'calls %s' % p.fns[x[6]].name.split('::<')[0])
                    bad = True
                for k in consts(x):
                    for al in pointees(p, k[1]):
                        v = p.allocs.get(str(al)) or p.allocs.get(al) or {}
                        if not isinstance(v, dict) or 'static' not in v:
                            continue
                        t = p.types.get(k[2], {})
                        if t.get('k') == 'ptr' and t.get('mut'):
                            out.bad('%s: mutable global' % f.name, where(p, f, x), 'uses the mutable static %s' % v['static'])
                            bad = True
                            continue
                        inner = lazily(p, v['ty'])
                        c = shared_cell(p, inner if inner is not None else v['ty'])
                        if c:
                            out.bad('%s: shared state' % f.name, where(p, f, x), 'uses the static %s whose type %s can change behind a shared reference' % (v['static'], c))
                            bad = True
        if not bad:
            out.ok()
    out.sample('%d functions refer to no static that can change' % out.discharged)


def where(p, f, x):
    try:
        return '%s in %s' % (p.span(x[1] if x[0] in ('call', 'switch', 'assert', 'drop', 'goto') else x[-1]), f.name)
    except Exception:
        return f.name


def fns(W, *ends):
    return [f for f in W.p.fns if f is not None and any(f.name.endswith(e) for e in ends) and (f.raw is not None or f.blocks is not None)]


@rule('C27', 'the data space is allocated and released once')
def _(ctx, out, tier):
    W = ctx.W
    new, drop = fns(W, 'memory::DataSpace::new'), fns(W, '<rtforth::memory::DataSpace as std::ops::Drop>::drop')
    if not new:
        raise AnchorError('DataSpace::new not found')
    if not drop:
        out.bad('DataSpace: never released', ctx.span(new[0].id), 'the data space has no destructor: its memory is never given back')
        return
    f, d = new[0], drop[0]
    out.functions |= {f.name, d.name}
    W.p.compile(f)
    w = ctx.span(f.id)
    n = sym('pages', 64)
    for r in W.I.run(f, [n], facts=Facts()):
        if r.status == 'panic':
            continue            # the host refused the memory
        if r.status != 'ret':
            out.unk('DataSpace::new: %s %s' % (r.status, r.why))
            continue
        al = [e[0] for e in r.events if e[0][0] == 'HOSTALLOC']
        if len(al) != 1:
            out.bad('DataSpace::new: allocations', w, 'takes %d blocks from the host, must take one' % len(al))
            continue
        lay, p = al[0][2], sym(('hostmem', 0), 64)
        if not al[0][1]:
            out.bad('DataSpace::new: not zeroed', w, 'the data space starts with arbitrary bytes')
        else:
            out.ok()
        root = ('tmp', 'space')
        heap = dict(r.heap)
        heap[root] = r.ret
        W.I.rootty[root] = f.locals[0]
        me = Ref(root, (), None, f.locals[0])
        want = dict(start=p, limit=add(p, mul(n, sym(('pagesize',), 64))), here=addc(p, 16))
        for nm, v in want.items():
            g = fns(W, '<rtforth::memory::DataSpace as rtforth::memory::Memory>::%s' % nm)
            if not g:
                raise AnchorError('Memory::%s not found' % nm)
            for q in W.I.run(g[0], [me], heap=dict(heap), facts=r.facts, mem=r.mem, nf=r.nf):
                if q.status != 'ret':
                    out.unk('%s of a new data space: %s %s' % (nm, q.status, q.why))
                elif q.facts.decide(eq(q.ret, v)) is True:
                    out.ok()
                else:
                    out.bad('DataSpace::new: %s' % nm, w, '%s of a new data space is %s, must be %s' % (nm, show(q.ret), show(v)))
        size = getattr(lay, 'name', (None,))
        if isinstance(size, tuple) and size[0] == 'layout' and r.facts.decide(eq(size[1], sub(want['limit'], p))) is True:
            out.ok()
        else:
            out.bad('DataSpace::new: size', w, 'the block taken from the host is %s, the space claims %s bytes' % (lay, show(sub(want['limit'], p))))
        for a, v, nm in ((p, 0, 'null'), (addc(p, 8), 10, 'base')):
            x = [e[0][3] for e in r.events if e[0][0] == 'store' and e[0][1] == a and e[0][2] == c64(8)]
            if x and x[-1] == c64(v) or not x and v == 0 and al[0][1]:
                out.ok()
            else:
                out.bad('DataSpace::new: %s' % nm, w, 'the system variable %s starts with %s, must be %d' % (nm, [show(y) for y in x], v))
        # any later data space: the same block and layout, other fields arbitrary
        keep = [k for k, v in r.ret.f.items() if v == lay]
        addr = [k for k, v in r.ret.f.items() if isinstance(v, Ref) and v.root == ('raw', p)]
        if not keep or not addr:
            out.unk('drop of the data space: the block and its layout are not kept in fields')
            continue
        any_ = W.I.symval(('a data space',), f.locals[0])
        heap[root] = any_
        fty = dict((i, ft) for i, (_, ft) in enumerate(W.T[f.locals[0]]['variants'][0]['fields']))
        rd = lambda i: W.I.read(W.newst(dict(heap), Facts()), root, (('f', i, 0, fty[i]),), fty[i])
        for q in W.I.run(d, [me], heap=dict(heap), facts=Facts()):
            fr = [e[0] for e in q.events if e[0][0] == 'HOSTFREE']
            if q.status != 'ret':
                out.unk('drop of the data space: %s %s' % (q.status, q.why))
            elif len(fr) != 1 or fr[0][1] not in [rd(i) for i in addr]:
                out.bad('DataSpace::drop: memory', ctx.span(d.id), 'gives back %s, must give back the block it took, once' % ([str(x[1]) for x in fr],),
                        path=[show(x if y else bneg(x)) for x, y in q.facts.lits.items()][-6:])
            elif fr[0][2] not in [rd(i) for i in keep]:
                out.bad('DataSpace::drop: layout', ctx.span(d.id), 'gives back a block with layout %s, took it with the layout kept in the space' % (fr[0][2],))
            else:
                out.ok()
    out.sample('one zeroed block of pages * page size bytes; start, limit, here, null, base; released once with its own layout')
