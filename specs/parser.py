"""conversion of tokens to numbers"""
from base import *
from core_comp import op
from vm import exc_value
import models

E1 = 1                  # digits per digit run that the general case follows


def byte(s, t, i):
    return models.byte_at(s.I, s.st, t, c64(i))


def more(s, t, i):
    return s.cond(ult(c64(i), t.meta))


def is_(s, b, c):
    return s.cond(eq(b, const(ord(c), 8)))


def between(s, b, lo, hi):
    return s.cond(ule(const(ord(lo), 8), b)) and s.cond(ule(b, const(ord(hi), 8)))


def reject(s):
    """the token is no number: some error is reported, which one is left to the caller"""
    le = s.error_ref()
    i = s.W.impl
    v = s.I.read(i, le.root, le.path, le.to) if i.status == 'ret' else None
    if isinstance(v, Ag) and v.var == models.variant_idx(s.I, le.to, 'Some'):
        s.wr(le, v)
    else:
        s.wr(le, models.some(s.I, le.to, exc_value(s.W, -11)))
    s.stop()


def sign(s, t, i):
    if more(s, t, i):
        b = byte(s, t, i)
        if is_(s, b, '+'):
            return i + 1, 1
        if is_(s, b, '-'):
            return i + 1, -1
    return i, 1


def cell(v):
    return zext(v, 64)


def shape(*parts, base=None):
    """tokens of a fixed length whose bytes are limited to the given ranges (a char, or 'lo-hi')"""
    def case(s, A):
        f = s.W.fn('evaluate_integer')
        t = s.I.symval('arg1', f.locals[2])
        A(eq(t.meta, c64(len(parts))))
        for i, p in enumerate(parts):
            b = byte(s, t, i)
            A(ule(const(ord(p[0]), 8), b))
            A(ule(b, const(ord(p[-1]), 8)))
        if base is not None:
            A(eq(s.load(addc(s.start(), 8)), c64(base)))
    return case, 40


def anything(s, A):
    pass


DEC, HEX, HEXU = '0-9', 'a-f', 'A-F'
INTS = [anything, shape(*[DEC] * 3), shape(*[DEC] * 21, base=10), shape('-', *[DEC] * 20, base=10), shape('$', '-', *[HEX] * 17),
        shape('$', *[HEXU] * 4, *[DEC] * 4), shape('%', *['0-1'] * 66), shape('-', *[HEX] * 3), shape(*[DEC] * 5, 'g-z')]
FLOATS = [anything, shape(*[DEC] * 20, 'e'), shape('1', '.', *[DEC] * 20, 'E'), shape(*[DEC] * 2, 'e', '-', *[DEC] * 21),
          shape('-', *[DEC] * 3, '.', *[DEC] * 3, 'E', *[DEC] * 3), shape('1', 'e', '+', *[DEC] * 12)]


@word('fn:evaluate_integer', 'C18', cost=6, opts=('aligned',), unroll=E1, cases=INTS)
def _(s, t):
    n = None
    if s.cond(eq(t.meta, c64(3))) and is_(s, byte(s, t, 0), "'") and is_(s, byte(s, t, 2), "'"):
        n = cell(byte(s, t, 1))
    else:
        base = s.load(addc(s.start(), 8))
        i = 0
        if more(s, t, 0):
            for c, v in (('%', 2), ('#', 10), ('$', 16)):
                if is_(s, byte(s, t, 0), c):
                    base, i = c64(v), 1
                    break
        i, sg = sign(s, t, i)
        first = i
        n = c64(0)
        while more(s, t, i):
            b = byte(s, t, i)
            for lo, hi, k in (('0', '9', 0), ('a', 'f', 10), ('A', 'F', 10)):
                if between(s, b, lo, hi):
                    d = addc(cell(addc(b, -ord(lo))), k)
                    break
            else:
                reject(s)
            if not s.cond(slt(d, base)):
                reject(s)
            n = add(mul(n, base), d)
            i += 1
            if i - first > 80:
                raise Bound()
        if i == first:
            reject(s)
        if sg < 0:
            n = neg(n)
    if s.cond(s.state('is_compiling')):
        op(s, 'idx_lit')
        s.comma(n)
    else:
        s.push(n)


def digits(s, t, i):
    """unsigned decimal digits from byte i; a value beyond the cell range is no number"""
    n = c64(0)
    first = i
    while more(s, t, i):
        b = byte(s, t, i)
        if not between(s, b, '0', '9'):
            break
        if s.cond(terms.sat_overflow('Mul', True, n, c64(10))):
            reject(s)
        n = mulc(n, 10)
        d = cell(addc(b, -48))
        if s.cond(terms.sat_overflow('Add', True, n, d)):
            reject(s)
        n = add(n, d)
        i += 1
        if i - first > 80:
            raise Bound()
    return i, n


from interp import i2f


def powi(x, n):
    return Fl(('powi', x, n))


def fbits(x):
    import struct
    return Fl(('c', struct.unpack('<Q', struct.pack('<d', x))[0]))


@word('fn:evaluate_float', 'C18', cost=8, opts=('aligned',), unroll=E1, cases=FLOATS)
def _(s, t):
    i, sg = sign(s, t, 0)
    j, ip = digits(s, t, i)
    if j == i:
        reject(s)
    i = j
    fp = fbits(0.0)
    if more(s, t, i) and is_(s, byte(s, t, i), '.'):
        j, f = digits(s, t, i + 1)
        fp = s.I.fbin('Div', i2f(f), powi(fbits(10.0), const(j - i - 1, 32)))
        i = j
    if not more(s, t, i) or not (is_(s, byte(s, t, i), 'E') or is_(s, byte(s, t, i), 'e')):
        reject(s)
    i, es = sign(s, t, i + 1)
    i, e = digits(s, t, i)
    if more(s, t, i):
        reject(s)
    flit = s.ref('idx_flit')
    if s.cond(eq(flit, c64(0))):
        reject(s)
    if es < 0:
        e = neg(e)
    # clamped to the range of the power function
    if s.cond(slt(e, c64(-(1 << 31)))):
        e = c64(-(1 << 31))
    elif not s.cond(slt(e, c64((1 << 31) - 1))):
        e = c64((1 << 31) - 1)
    v = s.I.fbin('Mul', s.I.fbin('Mul', fbits(float(sg)), s.I.fbin('Add', i2f(ip), fp)), powi(fbits(10.0), trunc(e, 32)))
    if s.cond(s.state('is_compiling')):
        op(s, 'idx_flit')
        s.align(8)
        s.comma(v, 'F64')
    else:
        s.fpush(v)
