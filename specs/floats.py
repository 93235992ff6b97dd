"""C19: floating-point words and unit conversions; results are IEEE operations on the operands"""
import math
import struct
from base import *
from core_data import shuffle


def k(x):
    return Fl(('c', struct.unpack('<Q', struct.pack('<d', x))[0]))


def F(op):
    return lambda s, a, b: s.I.fbin(op, a, b)


def pure(n, *a):
    if n in ('min', 'max'):
        a = sorted(a, key=str)
    return Fl((n,) + tuple(a))


for n, before, after in (('fdrop', 'a', ''), ('fdup', 'a', 'a a'), ('fswap', 'a b', 'b a'), ('fnip', 'a b', 'b'),
                         ('fover', 'a b', 'a b a'), ('frot', 'a b c', 'b c a')):
    shuffle(n, before, after, 'f', 'C19')


def fpick_pre(s, A):
    A(ult(s.get(1), zext(s.depth('f'), 64)))


@word('fpick', 'C19', s=1, f=1, opts=(fpick_pre,))
def _(s):
    u = s.pop()
    s.fpush(s.rd(s.slot(addc(sub(s.depth('f'), trunc(u, 8)), -1), 'f')))


for n, m in (('fabs', 'abs'), ('fsin', 'sin'), ('fcos', 'cos'), ('ftan', 'tan'), ('fasin', 'asin'), ('facos', 'acos'), ('fatan', 'atan'),
             ('fsqrt', 'sqrt'), ('floor', 'floor'), ('fround', 'round'), ('fceil', 'ceil')):
    simple(n, 'C19', lambda s, m=m: s.fpush(pure(m, s.fpop())), f=1)
for n, m in (('fatan2', 'atan2'), ('f**', 'powf'), ('fmin', 'min'), ('fmax', 'max')):
    def _u(s, m=m):
        a, b = s.pops(2, 'f')
        s.fpush(pure(m, a, b))
    simple(n, 'C19', _u, f=2)
for n, m in (('f+', 'Add'), ('f-', 'Sub'), ('f*', 'Mul'), ('f/', 'Div')):
    def _b(s, m=m):
        a, b = s.pops(2, 'f')
        s.fpush(s.I.fbin(m, a, b))
    simple(n, 'C19', _b, f=2)
simple('fnegate', 'C19', lambda s: s.fpush(Fl(('fneg', s.fpop()))), f=1)
simple('pi', 'C19', lambda s: s.fpush(k(math.pi)))


@word('fsincos', 'C19', f=1)
def _(s):
    a = s.fpop()
    s.fpush(pure('sin', a))
    s.fpush(pure('cos', a))


@word('s>f', 'C19', s=1)
def _(s):
    s.fpush(Fl(('i2f', s.pop(), 'i')))


@word('f>s', 'C19', f=1)
def _(s):
    s.push(fn('f2i', (s.fpop(), s.W.T[s.ty('Isize')]['n']), 64))


def fl(s, c):
    s.push(c64(-1) if s.cond(c) else c64(0))


Z = k(0.0)
simple('f0<', 'C19', lambda s: fl(s, s.I.fbin('Lt', s.fpop(), Z)), f=1)
simple('f0=', 'C19', lambda s: fl(s, s.I.fbin('Eq', s.fpop(), Z)), f=1)


@word('f<', 'C19', f=2)
def _(s):
    a, b = s.pops(2, 'f')
    fl(s, s.I.fbin('Lt', a, b))


@word('f~', 'C19', f=3)
def _(s):
    a, b, t = s.pops(3, 'f')
    B_ = s.I.fbin
    if s.cond(B_('Gt', t, Z)):
        fl(s, B_('Lt', pure('abs', B_('Sub', a, b)), t))
    elif s.cond(B_('Eq', t, Z)):
        fl(s, B_('Eq', a, b))
    else:
        fl(s, B_('Lt', pure('abs', B_('Sub', a, b)), B_('Mul', pure('abs', t), B_('Add', pure('abs', a), pure('abs', b)))))


simple('float+', 'C19', lambda s: s.push(addc(s.pop(), 8)), s=1)
simple('floats', 'C19', lambda s: s.push(mulc(s.pop(), 8)), s=1)
simple('faligned', 'C19', lambda s: s.push(align_up(s.pop(), 8)), s=1)

# ---------------------------------------------------------------- units

M_ = 'Mul'
D_ = 'Div'
UNITS = (('meter', ((M_, 1.0),)), ('mm', ((M_, 0.001),)), ('um', ((M_, 0.000001),)), ('deg', ((M_, math.pi), (D_, 180.0))), ('rad', ()),
         ('hr', ((M_, 3600.0),)), ('minute', ((M_, 60.0),)), ('sec', ((M_, 1.0),)), ('msec', ((M_, 0.001),)), ('usec', ((M_, 0.000001),)),
         ('mm/min', ((M_, 0.001), (D_, 60.0))), ('mm/sec', ((M_, 0.001), (D_, 1.0))), ('um/msec', ((M_, 0.000001), (D_, 0.001))),
         ('rpm', ((M_, 2.0 * math.pi / 60.0),)), ('hz', ()), ('1/sec', ()))
for n, ops in UNITS:
    def _q(s, ops=ops):
        v = s.fpop()
        for o, c in ops:
            v = s.I.fbin(o, v, k(c))
        s.fpush(v)
    simple(n, 'C19', _q, f=1)
