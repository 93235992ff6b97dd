"""Reference of the library words of core.fth.

Written from their stack comments and the ANS standard; the words' Forth definitions are interpreted on the abstract
machine and must reach the same state."""
from spec import *
from forth import prim, called
import forth
import base

LIB = {}


class LibSpec:
    def __init__(self, name, fn, need, opts, opaque, unroll, part, more):
        self.name, self.fn, self.need, self.opts, self.opaque, self.unroll, self.part = name, fn, need, tuple(opts), tuple(opaque), unroll, part
        self.more = more        # the source is followed this many iterations further than the reference


def lib(name, s=0, r=0, f=0, opts=(), opaque=(), unroll=2, part='body', extra=16, more=2):
    need = {k: (v, extra) for k, v in (('s', s), ('r', r), ('f', f), ('c', 0))}

    def d(fn):
        for n in ([name] if isinstance(name, str) else name):
            LIB.setdefault(n, []).append(LibSpec(n, fn, need, opts, opaque, unroll, part, more))
        return fn
    return d


def var(name):
    return sym(('body', name), 64)


def valid(n=1, cells=1, size=8):
    """the n-th item from the top is the address of so many cells"""
    def pre(s, A):
        a = s.get(n)
        A(ult(s.start(), a))
        A(ule(a, addc(s.limit(), -size * cells)))
    return pre


def emit(s, c):
    s.push(c64(c))
    prim(s, 'emit')


def dot(s):
    """print the top number in the current base, followed by a space"""
    s.push(c64(0))
    prim(s, '.r')
    emit(s, 32)


def bad(code=-1):
    def f(s):
        s.abort(code)
    return f


def xt(name):
    return sym(('xt', name), 64)


# ---------------------------------------------------------------- arithmetic, comparison, stack

@lib('2*', s=1)
def _(s):
    s.push(mulc(s.pop(), 2))


@lib('2/', s=1)
def _(s):
    s.push(c64(2))
    prim(s, '/')


@lib('<=', s=2)
def _(s):
    a, b = s.pops(2)
    s.flag(bneg(slt(b, a)))


@lib('>=', s=2)
def _(s):
    a, b = s.pops(2)
    s.flag(bneg(slt(a, b)))


@lib('f>', f=2)
def _(s):
    a, b = s.pops(2, 'f')
    s.fpush(b)
    s.fpush(a)
    prim(s, 'f<')


@lib('?dup', s=1)
def _(s):
    x = s.get(1)
    if not s.cond(eq(x, c64(0))):
        s.push(x)


@lib('tuck', s=2)
def _(s):
    a, b = s.pops(2)
    for x in (b, a, b):
        s.push(x)


@lib('max', s=2)
def _(s):
    a, b = s.pops(2)
    s.push(b if s.cond(slt(a, b)) else a)


@lib('min', s=2)
def _(s):
    a, b = s.pops(2)
    s.push(a if s.cond(slt(a, b)) else b)


@lib('bounds', s=2)
def _(s):
    a, n = s.pops(2)
    s.push(add(a, n))
    s.push(a)


@lib('/string', s=3)
def _(s):
    a, u, n = s.pops(3)
    s.push(add(a, n))
    s.push(sub(u, n))


@lib('chars', s=1)
def _(s):
    pass


@lib('>char', s=1)
def _(s):
    c = band(s.pop(), c64(0x7f))
    s.push(c if s.cond(bneg(slt(c, c64(32)))) and s.cond(slt(c, c64(127))) else c64(ord('_')))


# ---------------------------------------------------------------- output

@lib('space')
def _(s):
    emit(s, 32)


@lib('cr')
def _(s):
    emit(s, 10)


@lib('spaces', s=1, unroll=3)
def _(s):
    n = s.pop()
    k = 0
    while s.cond(slt(c64(k), n)):
        if k > 3:
            raise Bound()
        emit(s, 32)
        k += 1


@lib('.', s=1)
def _(s):
    dot(s)


@lib('f.', f=1)
def _(s):
    s.push(c64(0))
    s.push(c64(7))
    prim(s, 'f.r')
    emit(s, 32)


@lib('?', s=1, opts=(valid(),))
def _(s):
    s.push(s.load(s.pop()))
    dot(s)


BASE = 8


@lib('decimal')
def _(s):
    s.store(addc(s.start(), BASE), c64(10))


@lib('hex')
def _(s):
    s.store(addc(s.start(), BASE), c64(16))


@lib('h.', s=1)
def _(s):
    a = addc(s.start(), BASE)
    b = s.load(a)
    s.store(a, c64(16))
    dot(s)
    s.store(a, b)


@lib('h.r', s=2)
def _(s):
    a = addc(s.start(), BASE)
    b = s.load(a)
    s.store(a, c64(16))
    prim(s, '.r')
    s.store(a, b)


def region(n):
    """at most n bytes from the address below the top of the stack"""
    def pre(s, A):
        a, u = s.get(2), s.get(1)
        A(ult(s.start(), a))
        A(ule(u, c64(n)))
        A(ule(a, addc(s.limit(), -n)))
    return pre


@lib('_type', s=2, opts=(region(2),), unroll=2)
def _(s):
    a, u = s.pops(2)
    k = 0
    while not s.cond(eq(add(a, u), addc(a, k))):
        if k > 2:
            raise Bound()
        c = band(zext(s.load(addc(a, k), 'U8'), 64), c64(0x7f))
        ok = s.cond(bneg(slt(c, c64(32)))) and s.cond(slt(c, c64(127)))
        s.push(c if ok else c64(ord('_')))
        prim(s, 'emit')
        k += 1


@lib('_dump', s=2, opts=(region(2),), unroll=2)
def _(s):
    a, u = s.pops(2)
    k = 0
    while not s.cond(eq(add(a, u), addc(a, k))):
        if k > 2:
            raise Bound()
        s.push(zext(s.load(addc(a, k), 'U8'), 64))
        s.push(c64(3))
        hr(s)
        k += 1


def hr(s):
    LIB['h.r'][0].fn(s)


def dump_region(s, A):
    a, u = s.get(2), s.get(1)
    A(ult(s.start(), a))
    A(bneg(slt(u, c64(0))))
    A(ule(u, c64(64)))
    A(ule(a, addc(s.limit(), -64)))


@lib('dump', s=2, opts=(dump_region,), opaque=('_dump', '_type'), unroll=0, more=1)
def _(s):
    a, u = s.pops(2)
    e = add(a, u)
    s.push(e)
    s.push(a)
    k = 0
    while True:
        e, a = s.pops(2)
        if not s.cond(slt(a, e)):
            return
        if k > 0:
            raise Bound()
        for x in (e, a, a, c64(4)):
            s.push(x)
        hr(s)
        emit(s, ord(':'))
        emit(s, 32)
        for x in (c64(8), s.get(1), c64(8)):
            s.push(x)
        called(s, '_dump')
        emit(s, 32)
        emit(s, 32)
        s.push(s.get(2))
        s.push(s.get(2))
        called(s, '_type')
        # next address = address + count, both left below by the two calls
        a, n = s.pops(2)
        s.push(add(a, n))
        emit(s, 10)
        k += 1


# ---------------------------------------------------------------- memory

@lib('2@', s=1, opts=(valid(cells=2),))
def _(s):
    a = s.pop()
    s.push(s.load(addc(a, 8)))
    s.push(s.load(a))


@lib('2!', s=3, opts=(valid(cells=2),))
def _(s):
    x1, x2, a = s.pops(3)
    s.store(a, x2)
    s.store(addc(a, 8), x1)


@lib('+!', s=2, opts=(valid(),))
def _(s):
    n, a = s.pops(2)
    s.store(a, add(s.load(a), n))


def fcomma(s):
    h = s.here()
    s.store(align_up(h, 8), s.fpop(), 'F64')
    s.set_here(addc(h, 8))


@lib('f,', f=1, opts=('aligned',))
def _(s):
    fcomma(s)


@lib('2,', s=2, opts=('aligned',))
def _(s):
    x1, x2 = s.pops(2)
    s.comma(x2)
    s.comma(x1)


@lib('c,', s=1)
def _(s):
    s.comma(trunc(s.pop(), 8), 'U8')


def fill_region(n):
    def pre(s, A):
        c, u, a = s.get(3), s.get(1), s.get(2)
        A(slt(u, c64(n + 1)))
        A(ult(s.start(), a))
        A(ule(a, addc(s.limit(), -64)))
    return pre


def fill_pre(s, A):
    """the stack comment says ( c-addr u char -- ): the address is third, the count second"""
    a, u = s.get(3), s.get(2)
    A(slt(u, c64(4)))
    A(ult(s.start(), a))
    A(ule(a, addc(s.limit(), -64)))


@lib('fill', s=3, opts=(fill_pre,), unroll=4)
def _(s):
    a, u, c = s.pops(3)
    k = 0
    while s.cond(slt(c64(k), u)):
        if k > 4:
            raise Bound()
        s.store(addc(a, k), trunc(c, 8), 'U8')
        k += 1


@lib('count', s=1, opts=(valid(size=1),))
def count(s):
    a = s.get(1)
    s.push(a)
    prim(s, 'c@')
    a, n = s.pops(2)
    s.push(addc(a, 1))
    s.push(n)


def append_pre(s, A):
    a, u, c = s.get(3), s.get(2), s.get(1)
    A(ult(s.start(), a))
    A(ule(u, c64(255)))
    A(ule(a, addc(s.limit(), -256)))
    A(ult(s.start(), c))
    A(ule(c, addc(s.limit(), -1024)))


@lib('append', s=3, opts=(append_pre,))
def _(s):
    a, u, c = s.pops(3)
    n = zext(s.load(c, 'U8'), 64)
    s.push(a)
    s.push(add(addc(c, 1), n))
    s.push(u)
    forth.move(s)
    s.store(c, trunc(add(zext(s.load(c, 'U8'), 64), u), 8), 'U8')


@lib('on', s=1, opts=(valid(),))
def _(s):
    s.store(s.pop(), c64(-1))


@lib('off', s=1, opts=(valid(),))
def _(s):
    s.store(s.pop(), c64(0))


@lib('pad')
def _(s):
    s.push(align_up(addc(s.here(), 512), 8))


@lib('source')
def _(s):
    s.push(var('tib'))
    s.push(s.load(var('#tib')))


# ---------------------------------------------------------------- defining and compiling

@lib('literal', s=1, opts=('aligned',))
def _(s):
    s.comma(xt('lit'))
    s.comma(s.pop())


@lib('2literal', s=2, opts=('aligned',))
def _(s):
    a, b = s.pops(2)
    for x in (a, b):
        s.comma(xt('lit'))
        s.comma(x)


@lib('fliteral', f=1, opts=('aligned',))
def _(s):
    s.comma(xt('flit'))
    fcomma(s)


@lib('variable', opaque=('create',))
def _(s):
    called(s, 'create')
    s.push(c64(0))
    prim(s, ',')


@lib('2variable', opaque=('create',))
def _(s):
    called(s, 'create')
    for k in range(2):
        s.push(c64(0))
        prim(s, ',')


def does(s):
    prim(s, '_does')


@lib('2constant', s=2)
def _(s):
    called(s, 'create')
    x1, x2 = s.pops(2)
    for x in (x2, x1):
        s.push(x)
        prim(s, ',')
    does(s)


@lib('2constant', s=1, opts=(valid(cells=2),), part='does')
def _(s):
    a = s.pop()
    s.push(s.load(addc(a, 8)))
    s.push(s.load(a))


@lib('fvariable')
def _(s):
    called(s, 'create')
    prim(s, 'falign')
    s.fpush(Fl(('c', 0)))
    fcomma(s)
    does(s)


@lib('fvariable', s=1, part='does')
def _(s):
    s.push(align_up(s.pop(), 8))


@lib('+field', s=2)
def _(s):
    called(s, 'create')
    # the offset is compiled below the size, which it then grows by
    s.push(s.get(2))
    prim(s, ',')
    a, b = s.pops(2)
    s.push(add(a, b))
    does(s)


@lib('+field', s=2, opts=(valid(),), part='does')
def _(s):
    n, a = s.pops(2)
    s.push(add(n, s.load(a)))


@lib('defer')
def _(s):
    called(s, 'create')
    s.push(xt('noop'))
    prim(s, ',')
    does(s)


@lib('defer', s=1, opts=(valid(),), part='does')
def _(s):
    forth.run_xt(s, s.load(s.pop()))


def defer_pre(s, A):
    x = s.get(1)
    A(ult(x, s.nwords()))
    a = s.wget(x, 'dfa')
    A(ult(s.start(), a))
    A(ule(a, addc(s.limit(), -8)))


@lib('defer@', s=1, opts=(defer_pre,))
def _(s):
    s.push(s.load(s.wget(s.pop(), 'dfa')))


@lib('defer!', s=2, opts=(defer_pre,))
def _(s):
    x2, x1 = s.pops(2)
    s.store(s.wget(x1, 'dfa'), x2)


# ---------------------------------------------------------------- text, time, tasks

@lib('word', s=1, opaque=('_skip', 'parse', '!token'))
def _(s):
    s.push(s.get(1))
    called(s, '_skip')
    called(s, 'parse')
    s.push(s.here())
    called(s, '!token')
    s.push(s.here())


@lib('xtime', s=2, opaque=('(xtime)',))
def _(s):
    t, x = s.pops(2)
    s.rpush(t)
    s.rpush(x)
    forth.run_xt(s, x)
    t, x = s.pops(2, 'r')
    s.push(t)
    s.push(x)
    called(s, '(xtime)')


def endless(s):
    s.stop()


@lib('nod', opaque=('pause',), unroll=3)
def _(s):
    for k in range(3):
        called(s, 'pause')
    endless(s)


@lib('halt', s=1, opaque=('activate', 'pause'), unroll=3)
def _(s):
    called(s, 'activate')
    for k in range(3):
        called(s, 'pause')
    endless(s)


@lib('stop', opaque=('pause',))
def _(s):
    prim(s, 'me')
    prim(s, 'suspend')
    called(s, 'pause')


@lib('get', s=1, opts=(valid(),), opaque=('pause',))
def _(s):
    k = 0
    while True:
        s.push(s.get(1))
        prim(s, '@')
        if s.cond(eq(s.pop(), c64(0))):
            break
        called(s, 'pause')
        k += 1
        if k > 2:
            raise Bound()
    a = s.pop()
    prim(s, 'me')
    s.push(a)
    prim(s, '!')


@lib('release', s=1, opts=(valid(),))
def _(s):
    a = s.pop()
    prim(s, 'me')
    if s.cond(eq(s.load(a), s.pop())):
        s.store(a, c64(0))


@lib('ms', s=1, opaque=('pause',), unroll=2)
def _(s):
    # stack: n t0
    prim(s, 'mtime')
    k = 0
    while True:
        prim(s, 'mtime')
        now = s.pop()
        n, t0 = s.get(2), s.get(1)
        if not s.cond(slt(sub(now, t0), n)):
            break
        called(s, 'pause')
        k += 1
        if k > 2:
            raise Bound()
    s.pops(2)


@lib('bin')
def _(s):
    pass


# ---------------------------------------------------------------- input sources

@lib('_save-input')
def _(s):
    prim(s, 'source-id')
    prim(s, 'source-idx')
    s.push(c64(2))


@lib('_restore-input', s=3, opaque=('source-id!', 'source-idx!'))
def _(s):
    if not s.cond(eq(s.pop(), c64(2))):
        prim(s, 'abort')
        return
    called(s, 'source-idx!')
    called(s, 'source-id!')


def src_count(s, A):
    """a stack of saved sources that has not been corrupted"""
    a = var('src-stack')
    n = s.load(addc(a, 8))
    A(eq(s.load(a), c64(16)))
    A(ule(n, c64(16)))


@lib('save-source', opts=(src_count,))
def _(s):
    a = var('src-stack')
    n = s.load(addc(a, 8))
    prim(s, 'source-id')
    prim(s, 'source-idx')
    if not s.cond(slt(n, c64(16))):
        prim(s, 'abort')
        return
    sid, idx = s.pops(2)
    n1 = addc(n, 1)
    s.store(addc(a, 8), n1)
    e = add(a, mulc(n1, 16))
    s.store(e, idx)
    s.store(addc(e, 8), sid)


@lib('restore-source', opts=(src_count,), opaque=('source-idx!', 'source-id!'))
def _(s):
    a = var('src-stack')
    n = s.load(addc(a, 8))
    if not s.cond(slt(c64(0), n)):
        s.push(n)
        prim(s, 'abort')
        return
    e = add(a, mulc(n, 16))
    s.store(addc(a, 8), addc(n, -1))
    s.push(s.load(addc(e, 8)))
    s.push(s.load(e))
    called(s, 'source-idx!')
    called(s, 'source-id!')


@lib('evaluate-input', opaque=('parse-word', 'compile-token', 'interpret-token', '?stacks'), unroll=2)
def _(s):
    k = 0
    while True:
        called(s, 'parse-word')
        prim(s, 'token-empty?')
        if not s.cond(eq(s.pop(), c64(0))):
            return
        prim(s, 'compiling?')
        called(s, 'interpret-token' if s.cond(eq(s.pop(), c64(0))) else 'compile-token')
        called(s, '?stacks')
        k += 1
        if k > 2:
            raise Bound()


@lib('load-source-file', opaque=('load-line', 'evaluate-input', 'flush-output', 'source-idx!'), unroll=2)
def _(s):
    k = 0
    while True:
        prim(s, 'source-id')
        called(s, 'load-line')
        if s.cond(eq(s.pop(), c64(0))):
            break
        s.pop()
        s.push(c64(0))
        called(s, 'source-idx!')
        called(s, 'evaluate-input')
        called(s, 'flush-output')
        s.push(c64(1))
        s.push(var('load-line#'))
        a = s.pop()
        s.store(a, add(s.load(a), s.pop()))
        k += 1
        if k > 2:
            raise Bound()
    s.pop()


@lib('included', s=2, opaque=('open-file', 'save-source', 'open-source', 'source-id!', 'load-source-file', 'restore-source', 'close-source'))
def _(s):
    s.push(s.get(2))
    s.push(s.get(2))
    s.push(c64(0))
    called(s, 'open-file')
    if not s.cond(eq(s.pop(), c64(0))):
        prim(s, 'abort')
        return
    called(s, 'save-source')
    called(s, 'open-source')
    called(s, 'source-id!')
    prim(s, '[')
    s.push(c64(1))
    s.push(var('load-line#'))
    prim(s, '!')
    called(s, 'load-source-file')
    prim(s, 'source-id')
    called(s, 'restore-source')
    called(s, 'close-source')


@lib('include', opaque=('word', 'included'))
def _(s):
    s.push(c64(32))
    called(s, 'word')
    count(s)
    called(s, 'included')


@lib('\\\\', opaque=('load-line',), unroll=2)
def _(s):
    prim(s, 'source-id')
    k = 0
    while True:
        s.push(s.get(1))
        called(s, 'load-line')
        if s.cond(eq(s.pop(), c64(0))):
            break
        s.pop()
        k += 1
        if k > 2:
            raise Bound()
    s.pops(2)


# ---------------------------------------------------------------- values fixed at load time

CONSTANTS = {'bl': 32, 'operator': 0, 'r/o': 0, 'w/o': 1, 'r/w': 2}
DATA = {'#tib': {0: 0}, '>in': {0: 0}, 'tib': {}, 'src-stack': {0: 16, 8: 0}, 'load-line#': {}}
SIZES = {'#tib': 8, '>in': 8, 'tib': 256, 'src-stack': 16 + 16 * 16, 'load-line#': 8}
DEFERRED = {'save-input': '_save-input', 'restore-input': '_restore-input'}
IMMEDIATE = {'chars', 'literal', '2literal', 'fliteral'}
COMPILE_ONLY = {'literal', '2literal', 'fliteral'}
