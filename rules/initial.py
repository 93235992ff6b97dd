"""what the constructors leave: an empty guarded stack, an empty dictionary, an interpreting idle task"""
from runner import rule
from spec import *
import models


def build(ctx, f, args):
    W = ctx.W
    st = W.newst({}, W.base_facts())
    rs = W.I.run(f, args, facts=st.facts)
    if not rs or any(r.status != 'ret' for r in rs):
        raise Unsup('%s: %s' % (f.name, [(r.status, r.why) for r in rs][:2]))
    return rs


def field(ctx, r, v, ty, name, *more):
    W = ctx.W
    _, i, _, ft = W.field(ty, name)
    root = ('tmp', 'new')
    r.heap[root] = v
    W.I.rootty[root] = ty
    return W.I.read(r, root, (('f', i, 0, ft),) + more, more[-1][2] if more else ft), ft


def same(W, r, x, y):
    if x == y:
        return True
    if isinstance(x, P) and isinstance(y, P):
        return r.facts.decide(eq(x, y)) is True
    return r.facts.simp(x) == r.facts.simp(y)


@rule('C22', 'new stack')
def _(ctx, out, tier):
    W = ctx.W
    fs = [f for f in W.p.fns if f.name.endswith('>::new') and 'Stack::<' in f.name and (f.raw is not None or f.blocks is not None)]
    if not fs:
        raise AnchorError('Stack::new not found')
    for f in fs:
        out.functions.add(f.name)
        where = ctx.span(f.id)
        ty = f.locals[0]
        c = W.I.symval(('arg', 1), f.locals[1])
        try:
            for r in build(ctx, f, [c]):
                n, _ = field(ctx, r, r.ret, ty, 'len')
                if not same(W, r, n, const(0, n[0])):
                    out.bad('%s: depth' % f.name, where, 'a new stack has depth %s, must be empty' % show(n))
                else:
                    out.ok()
                k, _ = field(ctx, r, r.ret, ty, 'canary')
                if not same(W, r, k, c):
                    out.bad('%s: canary' % f.name, where, 'the guard value of a new stack is not the one given')
                else:
                    out.ok()
                _, i, _, ft = W.field(ty, 'inner')
                e = W.T[ft]['elem']
                for ix in (64, 255):
                    x, _ = field(ctx, r, r.ret, ty, 'inner', ('i', c64(ix), e))
                    if not same(W, r, x, c):
                        out.bad('%s: guard cell %d' % (f.name, ix), where, 'guard cell %d of a new stack holds %s' % (ix, x if not isinstance(x, P) else show(x)))
                    else:
                        out.ok()
        except Unsup as e:
            out.unk('%s: %s' % (f.name, e))


@rule('C14', 'new dictionary and task state')
def _(ctx, out, tier):
    W = ctx.W
    fs = [f for f in W.p.fns if 'Wordlist::<' in f.name and f.name.endswith('>::with_capacity') and (f.raw is not None or f.blocks is not None)]
    for f in fs:
        out.functions.add(f.name)
        where = ctx.span(f.id)
        ty = f.locals[0]
        try:
            for r in build(ctx, f, [sym('capacity', 64)]):
                _, i, _, ft = W.field(ty, 'buckets')
                e = W.T[ft]['elem']
                for ix in (sym('any bucket', 64),):
                    r.facts = r.facts.assume(ult(ix, c64(64))) or r.facts
                    x, _ = field(ctx, r, r.ret, ty, 'buckets', ('i', ix, e))
                    if not same(W, r, x, c64(0)):
                        out.bad('%s: buckets' % f.name, where, 'a bucket of a new dictionary starts with %s, must be empty' % show(x))
                    else:
                        out.ok()
                root = ('tmp', 'new')
                wr = W.field(ty, 'words')
                n = models.vec_len(W.I, r, Ref(root, (wr,), None, wr[3]))
                if not same(W, r, n, c64(0)):
                    out.bad('%s: words' % f.name, where, 'a new dictionary has %s words' % show(n))
                else:
                    out.ok()
        except Unsup as e:
            out.unk('%s: %s' % (f.name, e))
    f = [f for f in W.p.fns if f.name.endswith('core::State::new') and (f.raw is not None or f.blocks is not None)]
    for f in f:
        out.functions.add(f.name)
        try:
            for r in build(ctx, f, []):
                for nm, want in (('is_compiling', False), ('instruction_pointer', c64(0)), ('source_index', c64(0)), ('source_id', c64(0))):
                    try:
                        x, _ = field(ctx, r, r.ret, f.locals[0], nm)
                    except AnchorError:
                        continue
                    if x != want and not same(W, r, x, want):
                        out.bad('%s: %s' % (f.name, nm), ctx.span(f.id), 'a new task starts with %s = %s' % (nm, x if not isinstance(x, tuple) else show(x)))
                    else:
                        out.ok()
        except Unsup as e:
            out.unk('%s: %s' % (f.name, e))


@rule('C12', 'the first task is awake')
def _(ctx, out, tier):
    W = ctx.W
    if getattr(W, 'awake0', None) is None:
        out.unk('no awake flag')
        return
    where = ctx.span(W.fid('add_core'))
    out.functions.add(W.fn('add_core').name)
    wakes = None
    try:
        tt = W.T[W.field(W.vmty, 'tasks')[3]]['elem']
        makers = [f for f in W.p.fns if (f.raw is not None or f.blocks is not None) and f.locals and f.locals[0] == tt]
        for f in makers:
            out.functions.add(f.name)
            for r in build(ctx, f, [W.I.symval(('arg', i), f.locals[i]) for i in range(1, f.nargs + 1)]):
                v, _ = field(ctx, r, r.ret, tt, 'awake')
                if v is not False:
                    wakes = True
                elif wakes is None:
                    wakes = False
                for nm in ('files', 'sources', 'lines'):
                    try:
                        fd = W.field(tt, nm)
                    except AnchorError:
                        continue
                    n = models.vec_len(W.I, r, Ref(('tmp', 'new'), (fd,), None, fd[3]))
                    if not same(W, r, n, c64(0)):
                        out.bad('%s: %s' % (f.name, nm), ctx.span(f.id), 'a new task starts with %s %s' % (show(n), nm))
                    else:
                        out.ok()
    except (Unsup, AnchorError, KeyError) as e:
        out.unk('task constructor: %s' % e)
        wakes = True
    for status, v in W.awake0:
        if status != 'ret':
            out.unk('awake(0): %s' % status)
        elif v is True:
            out.ok()
        elif v is False:
            out.bad('task 0 sleeps', where, 'no task is awake after construction: the first pause never returns')
        else:
            # left to the constructor: some constructor must set a flag to true
            if wakes is not False:
                out.unk('awake(0) is decided by the constructor')
            else:
                out.bad('task 0 sleeps', where, 'nothing wakes task 0 during construction: the first pause never returns')
