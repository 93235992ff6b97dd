"""integer arithmetic, logic, comparison, stack shuffles, memory access"""
from base import *

MIN = c64(1 << 63)

# ---------------------------------------------------------------- C02 arithmetic and logic


def binop_(f):
    def g(s):
        a, b = s.pops(2)
        s.push(f(a, b))
    return g


def unop_(f):
    def g(s):
        s.push(f(s.pop()))
    return g


def low6(u):
    return band(u, c64(63))


def shift_pre(s, A):
    pass


for n, f in (('+', add), ('-', sub), ('*', mul), ('and', band), ('or', bor), ('xor', bxor),
             ('lshift', lambda a, u: shl(a, low6(u))), ('rshift', lambda a, u: lshr(a, low6(u)))):
    simple(n, 'C02', binop_(f), s=2)
for n, f in (('1+', lambda a: addc(a, 1)), ('1-', lambda a: addc(a, -1)), ('negate', neg), ('invert', bnot),
             ('char+', lambda a: addc(a, 1)), ('cell+', lambda a: addc(a, 8)), ('cells', lambda a: mulc(a, 8)),
             ('aligned', lambda a: align_up(a, 8))):
    simple(n, 'C02', unop_(f), s=1)


@word('abs', 'C02', s=1)
def _(s):
    a = s.pop()
    s.push(neg(a) if s.cond(slt(a, c64(0))) else a)


def divide(f):
    def g(s):
        a, b = s.pops(2)
        if s.cond(eq(b, c64(0))):
            s.abort(-10)
        if s.cond(eq(b, c64(-1))):
            q, m = neg(a), c64(0)
        else:
            q, m = sdiv(a, b), srem(a, b)
        f(s, q, m)
    return g


simple('/', 'C02 C10', divide(lambda s, q, m: s.push(q)), s=2)
simple('mod', 'C02 C10', divide(lambda s, q, m: s.push(m)), s=2)


@word('/mod', 'C02 C10', s=2)
def _(s):
    def f(s, q, m):
        s.push(m)
        s.push(q)
    divide(f)(s)


simple('max-n', 'C02', lambda s: s.push(c64((1 << 63) - 1)))
simple('max-u', 'C02', lambda s: s.push(c64(-1)))

# ---------------------------------------------------------------- C03 flags

Z = c64(0)
for n, f in (('0<', lambda a: slt(a, Z)), ('0=', lambda a: eq(a, Z)), ('not', lambda a: eq(a, Z)),
             ('0>', lambda a: slt(Z, a)), ('0<>', lambda a: ne(a, Z))):
    def _u(s, f=f):
        s.flag(f(s.pop()))
    simple(n, 'C03', _u, s=1)
for n, f in (('=', eq), ('<>', ne), ('<', slt), ('>', lambda a, b: slt(b, a))):
    def _b(s, f=f):
        a, b = s.pops(2)
        s.flag(f(a, b))
    simple(n, 'C03', _b, s=2)


@word('within', 'C03', s=3)
def _(s):
    x, lo, hi = s.pops(3)
    s.push(c64(-1) if s.cond(sle(lo, x)) and s.cond(slt(x, hi)) else c64(0))


simple('true', 'C03', lambda s: s.push(c64(-1)))
simple('false', 'C03', lambda s: s.push(c64(0)))

# ---------------------------------------------------------------- C04 shuffles


def shuffle(name, before, after, k='s', props='C04'):
    """picture: before/after are lists of letters, top last"""
    b, a = before.split(), after.split()

    def g(s):
        v = dict(zip(b, s.pops(len(b), k)))
        for x in a:
            s.push(v[x], k)
    simple(name, props, g, **{k: len(b)})


shuffle('dup', 'a', 'a a')
shuffle('drop', 'a', '')
shuffle('swap', 'a b', 'b a')
shuffle('over', 'a b', 'a b a')
shuffle('nip', 'a b', 'b')
shuffle('rot', 'a b c', 'b c a')
shuffle('-rot', 'a b c', 'c a b')
shuffle('2dup', 'a b', 'a b a b')
shuffle('2drop', 'a b', '')
shuffle('2swap', 'a b c d', 'c d a b')
shuffle('2over', 'a b c d', 'a b c d a b')


def pick_pre(s, A):
    A(ult(s.get(1), zext(addc(s.depth(), -1), 64)))


@word('pick', 'C04', s=2, opts=(pick_pre,))
def _(s):
    u = s.pop()
    s.push(s.rd(s.slot(addc(sub(s.depth(), trunc(u, 8)), -1))))


@word('depth', 'C04')
def _(s):
    s.push(zext(s.depth(), 64))


@word('>r', 'C04', s=1)
def _(s):
    s.rpush(s.pop())


@word('r>', 'C04', r=1)
def _(s):
    s.push(s.rpop())


@word('r@', 'C04', r=1)
def _(s):
    s.push(s.get(1, 'r'))


@word('2>r', 'C04', s=2)
def _(s):
    a, b = s.pops(2)
    s.rpush(a)
    s.rpush(b)


@word('2r>', 'C04', r=2)
def _(s):
    a, b = s.pops(2, 'r')
    s.push(a)
    s.push(b)


@word('2r@', 'C04', r=2)
def _(s):
    a, b = s.get(2, 'r'), s.get(1, 'r')
    s.push(a)
    s.push(b)


simple(['noop', ''], 'C04', lambda s: None)

# ---------------------------------------------------------------- C01 data-space access


def in_range(s, a, n, strict=True):
    """start < a (or <=) and the n bytes at a end inside the data space, without wrap-around"""
    lo = ult(s.start(), a) if strict else ule(s.start(), a)
    if not s.cond(lo):
        return False
    if isinstance(n, int):
        n = c64(n)
    if not s.cond(ule(a, s.limit())):
        return False
    return s.cond(ule(n, sub(s.limit(), a)))


@word('@', 'C01 C10', s=1)
def _(s):
    a = s.pop()
    if not in_range(s, a, 8):
        s.abort(-9)
    s.push(s.load(a))


@word('!', 'C01 C10', s=2)
def _(s):
    v, a = s.pops(2)
    if not in_range(s, a, 8):
        s.abort(-9)
    s.store(a, v)


@word('c@', 'C01 C10', s=1)
def _(s):
    a = s.pop()
    if not in_range(s, a, 1, False):
        s.abort(-9)
    s.push(zext(s.load(a, 'U8'), 64))


@word('c!', 'C01 C10', s=2)
def _(s):
    v, a = s.pops(2)
    if not in_range(s, a, 1):
        s.abort(-9)
    s.store(a, trunc(v, 8), 'U8')


@word('f@', 'C01 C10 C19', s=1)
def _(s):
    a = align_up(s.pop(), 8)
    if not in_range(s, a, 8, False):
        s.abort(-9)
    s.fpush(s.load(a, 'F64'))


@word('f!', 'C01 C10 C19', s=1, f=1)
def _(s):
    a = align_up(s.pop(), 8)
    v = s.fpop()
    if not in_range(s, a, 8, False):
        s.abort(-9)
    s.store(a, v, 'F64')
