"""Value-number (term) domain.

Machine integers are kept as polynomials modulo 2^w over interned atoms, so that
every ring identity (a+b-b, x-1-1, 2*x vs x<<1, ...) is decided by normal form.
Bitwise expressions are kept in algebraic normal form (xor of masked ands).
Boolean conditions are canonical comparison literals.  Nothing in here calls a
solver: equality of abstract values is equality of normal forms.
"""

ATOMS = []          # id -> descriptor tuple
_AIDX = {}


def atom(desc):
    i = _AIDX.get(desc)
    if i is None:
        i = len(ATOMS)
        ATOMS.append(desc)
        _AIDX[desc] = i
    return i


class P(tuple):
    """(w, c, items)  items = sorted tuple of (mono, coef), mono = sorted tuple of atom ids"""
    __slots__ = ()

    @property
    def w(self):
        return self[0]

    @property
    def c(self):
        return self[1]

    @property
    def items(self):
        return self[2]

    def __repr__(self):
        return show(self)


class Fl(tuple):
    """float value number: ('c', bits) | ('s', name) | (op, args...)"""
    __slots__ = ()

    def __repr__(self):
        return 'F' + show(tuple(self))


class B(tuple):
    """(kind, args, pol): boolean literal; kind in eq0, ult, slt, sym, op"""
    __slots__ = ()

    def __repr__(self):
        return show(self)


def const(v, w):
    return P((w, v & ((1 << w) - 1), ()))


def is_const(p):
    return isinstance(p, P) and not p[2]


def cval(p):
    return p[1]


def sval(p):
    w = p[0]
    return p[1] - (1 << w) if p[1] >> (w - 1) else p[1]


def tosigned(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def mk(w, c, d):
    m = (1 << w) - 1
    it = tuple(sorted((k, v & m) for k, v in d.items() if v & m))
    return P((w, c & m, it))


def at(desc, w):
    return P((w, 0, (((atom(desc),), 1),)))


def sym(name, w):
    return at(('s', name, w), w)


def single(p):
    """atom descriptor if p is exactly one atom with coefficient 1"""
    if p[1] == 0 and len(p[2]) == 1 and p[2][0][1] == 1 and len(p[2][0][0]) == 1:
        return ATOMS[p[2][0][0][0]]
    return None


def add(a, b):
    assert a[0] == b[0], (a, b)
    if not b[2]:
        return P((a[0], (a[1] + b[1]) & ((1 << a[0]) - 1), a[2]))
    d = dict(a[2])
    for k, v in b[2]:
        d[k] = d.get(k, 0) + v
    return mk(a[0], a[1] + b[1], d)


def mulc(a, k):
    return mk(a[0], a[1] * k, {m: v * k for m, v in a[2]})


def neg(a):
    return mulc(a, -1)


def sub(a, b):
    return add(a, neg(b))


def addc(a, k):
    return P((a[0], (a[1] + k) & ((1 << a[0]) - 1), a[2]))


def mul(a, b):
    assert a[0] == b[0]
    w = a[0]
    d = {}
    c = 0
    for ka, va in list(a[2]) + [((), a[1])]:
        if not va:
            continue
        for kb, vb in list(b[2]) + [((), b[1])]:
            if not vb:
                continue
            k = tuple(sorted(ka + kb))
            if k == ():
                c += va * vb
            else:
                d[k] = d.get(k, 0) + va * vb
    return mk(w, c, d)


def bnot(a):
    return addc(neg(a), -1)


# ------------------------------------------------------------------ bitwise (ANF)

def _anf(p):
    """-> dict frozenset(P) -> mask"""
    w = p[0]
    m = (1 << w) - 1
    if not p[2]:
        return {frozenset(): p[1]} if p[1] else {}
    d = single(p)
    if d is not None and d[0] == 'anf':
        return dict((frozenset(k), v) for k, v in d[1])
    q = bnot(p)
    d = single(q)
    if d is not None and d[0] == 'anf':
        r = dict((frozenset(k), v) for k, v in d[1])
        return _xor(r, {frozenset(): m})
    if single(p) is None and (single(q) is not None or _key(q) < _key(p)):
        return {frozenset([q]): m, frozenset(): m}
    return {frozenset([p]): m}


def _key(p):
    return (len(p[2]), p[2], p[1])


def _xor(a, b):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) ^ v
    return {k: v for k, v in r.items() if v}


def _and(a, b):
    r = {}
    for ka, va in a.items():
        for kb, vb in b.items():
            k = ka | kb
            v = va & vb
            if v:
                r[k] = r.get(k, 0) ^ v
    return {k: v for k, v in r.items() if v}


def _unanf(d, w):
    m = (1 << w) - 1
    if not d:
        return const(0, w)
    if len(d) == 1:
        (k, v), = d.items()
        if not k:
            return const(v, w)
        if len(k) == 1 and v == m:
            return next(iter(k))
    full = frozenset()
    if d.get(full) == m:
        r = dict(d)
        del r[full]
        return bnot(_unanf(r, w))
    it = tuple(sorted(((tuple(sorted(k)), v) for k, v in d.items())))
    return at(('anf', it, w), w)


def band(a, b):
    return _unanf(_and(_anf(a), _anf(b)), a[0])


def bxor(a, b):
    return _unanf(_xor(_anf(a), _anf(b)), a[0])


def bor(a, b):
    x, y = _anf(a), _anf(b)
    return _unanf(_xor(_xor(x, y), _and(x, y)), a[0])


# ------------------------------------------------------------------ shifts, division

def shl(a, n):
    """n already reduced modulo the width (or known < w)"""
    w = a[0]
    if is_const(n):
        k = cval(n)
        return const(0, w) if k >= w else mulc(a, 1 << k)
    return at(('shl', a, n), w)


def lshr(a, n):
    w = a[0]
    if is_const(n):
        k = cval(n)
        if k == 0:
            return a
        if k >= w:
            return const(0, w)
        if is_const(a):
            return const(cval(a) >> k, w)
    return at(('lshr', a, n), w)


def ashr(a, n):
    w = a[0]
    if is_const(n):
        if cval(n) == 0:
            return a
        if is_const(a):
            return const(sval(a) >> min(cval(n), w - 1), w)
    return at(('ashr', a, n), w)


def sdiv(a, b):
    w = a[0]
    if is_const(b):
        if sval(b) == 1:
            return a
        if sval(b) == -1:
            return neg(a)
        if is_const(a) and cval(b):
            x, y = sval(a), sval(b)
            q = abs(x) // abs(y)
            return const(q if (x < 0) == (y < 0) else -q, w)
    return at(('sdiv', a, b), w)


def srem(a, b):
    if is_const(b) and sval(b) in (1, -1):
        return const(0, a[0])
    # a rem b == a - (a div b)*b  (trunc division): one normal form for both
    return sub(a, mul(sdiv(a, b), b))


def udiv(a, b):
    w = a[0]
    if is_const(b):
        k = cval(b)
        if k == 1:
            return a
        if is_const(a) and k:
            return const(cval(a) // k, w)
        if k and k & (k - 1) == 0:
            return lshr(a, const(k.bit_length() - 1, w))
    return at(('udiv', a, b), w)


def urem(a, b):
    w = a[0]
    if is_const(b):
        k = cval(b)
        if is_const(a) and k:
            return const(cval(a) % k, w)
        if k and k & (k - 1) == 0:
            return band(a, const(k - 1, w))
    return sub(a, mul(udiv(a, b), b))


# ------------------------------------------------------------------ width changes

def zext(a, w):
    if a[0] == w:
        return a
    assert a[0] < w
    if is_const(a):
        return const(cval(a), w)
    d = single(a)
    if d is not None and d[0] == 'zext':
        return at(('zext', d[1], w), w)
    if d is not None and d[0] == 'trunc' and d[1][0] >= w:
        return band(trunc(d[1], w), const((1 << a[0]) - 1, w))
    return at(('zext', a, w), w)


def sext(a, w):
    if a[0] == w:
        return a
    if is_const(a):
        return const(sval(a), w)
    d = single(a)
    if d is not None and d[0] == 'zext':
        return at(('zext', d[1], w), w)
    if d is not None and d[0] == 'sext':
        return at(('sext', d[1], w), w)
    return at(('sext', a, w), w)


def trunc(a, w):
    if a[0] == w:
        return a
    assert a[0] > w
    r = const(a[1], w)
    for mono, coef in a[2]:
        t = const(coef, w)
        for x in mono:
            t = mul(t, _trunc_atom(x, w))
        r = add(r, t)
    return r


def _trunc_atom(x, w):
    d = ATOMS[x]
    if d[0] in ('zext', 'sext'):
        inner = d[1]
        if inner[0] == w:
            return inner
        if inner[0] > w:
            return trunc(inner, w)
        return zext(inner, w) if d[0] == 'zext' else sext(inner, w)
    if d[0] == 'trunc':
        return at(('trunc', d[1], w), w)
    if d[0] == 'anf':
        r = {}
        for k, v in d[1]:
            mv = v & ((1 << w) - 1)
            if mv:
                kk = frozenset(trunc(q, w) for q in k)
                r[kk] = r.get(kk, 0) ^ mv
        # monomials may have become constants; rebuild through the operators
        out = const(0, w)
        for k, v in r.items():
            t = const(v, w)
            for q in k:
                t = band(t, q)
            out = bxor(out, t)
        return out
    return at(('trunc', atom_poly(x), w), w)


def atom_width(d):
    if d[0] == 's':
        return d[2]
    if d[0] in ('zext', 'sext', 'trunc', 'anf'):
        return d[2]
    if d[0] == 'fn':
        return d[3]
    if d[0] == 'bool':
        return d[2]
    return d[1][0]


def atom_poly(x):
    return P((atom_width(ATOMS[x]), 0, (((x,), 1),)))


def cast(a, w, signed_src):
    if a[0] == w:
        return a
    if a[0] > w:
        return trunc(a, w)
    return sext(a, w) if signed_src else zext(a, w)


def fn(name, args, w):
    """uninterpreted function application"""
    if name == 'utf8len' and is_const(args[0]):
        c = args[0][1]
        return const(1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4, w)
    return at(('fn', name, tuple(args), w), w)


# ------------------------------------------------------------------ booleans

def bsym(name):
    return B(('sym', name, True))


def bop(name, *args):
    return B(('op', (name,) + args, True))


def bneg(b):
    if b is True:
        return False
    if b is False:
        return True
    return B((b[0], b[1], not b[2]))


def eq(a, b):
    assert a[0] == b[0], (a, b)
    p = sub(a, b)
    if not p[2]:
        return p[1] == 0
    w = p[0]
    # all coefficients even and odd constant -> never equal
    if p[1] & 1 and all(v & 1 == 0 for _, v in p[2]):
        return False
    # zext(x) + zext-free const
    if len(p[2]) == 1 and p[2][0][1] in (1, (1 << w) - 1) and len(p[2][0][0]) == 1:
        d = ATOMS[p[2][0][0][0]]
        k = (-p[1] if p[2][0][1] == 1 else p[1]) & ((1 << w) - 1)
        if d[0] == 'zext':
            iw = d[1][0]
            return eq(d[1], const(k, iw)) if k < (1 << iw) else False
        if d[0] == 'sext':
            iw = d[1][0]
            s = tosigned(k, w)
            return eq(d[1], const(s, iw)) if -(1 << (iw - 1)) <= s < (1 << (iw - 1)) else False
        if d[0] == 'bool':
            if k == (d[3] & ((1 << w) - 1)):
                return d[1]
            if k == 0:
                return bneg(d[1])
            return False
        if d[0] == 'anf' and all(m == (1 << w) - 1 or not f for f, m in d[1]):
            # exclusive or of whole words
            fs = [f for f, m in d[1] if f]
            kk = k
            for f, m in d[1]:
                if not f:
                    kk ^= m
            if all(len(f) == 1 for f in fs) and 1 <= len(fs) <= 2:
                if len(fs) == 1:
                    return eq(fs[0][0], const(kk, w))
                if kk == 0:
                    return eq(fs[0][0], fs[1][0])
    if len(p[2]) == 2 and p[1] == 0:
        (m1, c1), (m2, c2) = p[2]
        if len(m1) == 1 and len(m2) == 1 and (c1 + c2) & ((1 << w) - 1) == 0 and 1 in (c1, c2):
            d1, d2 = ATOMS[m1[0]], ATOMS[m2[0]]
            if d1[0] == d2[0] and d1[0] in ('zext', 'sext') and d1[1][0] == d2[1][0]:
                return eq(d1[1], d2[1])
    # sign-canonical
    if p[2][0][1] >> (w - 1):
        p = neg(p)
    return B(('eq0', p, True))


def ne(a, b):
    return bneg(eq(a, b))


def ult(a, b):
    w = a[0]
    if a == b:
        return False
    if is_const(a) and is_const(b):
        return cval(a) < cval(b)
    m = (1 << w) - 1
    if is_const(b):
        k = cval(b)
        if k == 0:
            return False
        if k == 1:
            return eq(a, const(0, w))
        hi = umax(a)
        if hi < k:
            return True
        lo = umin(a)
        if lo >= k:
            return False
        if k == m:
            return bneg(eq(a, const(m, w)))
        d = single(a)
        if d is not None and d[0] == 'zext':
            return ult(d[1], const(k, d[1][0]))
        return B(('ult', (a, b), True))
    if is_const(a):
        k = cval(a)
        if k == m:
            return False
        return bneg(ult(b, const(k + 1, w)))
    d1, d2 = single(a), single(b)
    if d1 is not None and d2 is not None and d1[0] == d2[0] == 'zext' and d1[1][0] == d2[1][0]:
        return ult(d1[1], d2[1])
    return B(('ult', (a, b), True))


def ule(a, b):
    return bneg(ult(b, a))


def slt(a, b):
    w = a[0]
    if a == b:
        return False
    if is_const(a) and is_const(b):
        return sval(a) < sval(b)
    mn, mx = -(1 << (w - 1)), (1 << (w - 1)) - 1
    if is_const(b):
        k = sval(b)
        if k == mn:
            return False
        if k == mx:
            return bneg(eq(a, const(mx, w)))
        if k == mn + 1:
            return eq(a, const(mn, w))
        d = single(a)
        if d is not None and d[0] == 'zext':
            return ult(a, const(k, w)) if k > 0 else False
        return B(('slt', (a, b), True))
    if is_const(a):
        k = sval(a)
        if k == mx:
            return False
        return bneg(slt(b, const(k + 1, w)))
    d1, d2 = single(a), single(b)
    if d1 is not None and d2 is not None and d1[0] == d2[0] == 'sext' and d1[1][0] == d2[1][0]:
        return slt(d1[1], d2[1])
    if d1 is not None and d2 is not None and d1[0] == d2[0] == 'zext':
        return ult(a, b)
    return B(('slt', (a, b), True))


def sle(a, b):
    return bneg(slt(b, a))


def umax(p):
    w = p[0]
    full = (1 << w) - 1
    if not p[2]:
        return p[1]
    tot = p[1]
    for mono, c in p[2]:
        t = c
        for x in mono:
            t *= atom_umax(x)
        tot += t
        if tot > full:
            return full
    return tot


def umin(p):
    if not p[2]:
        return p[1]
    w = p[0]
    full = (1 << w) - 1
    tot = p[1]
    for mono, c in p[2]:
        t = c
        for x in mono:
            t *= atom_umax(x)
        tot += t
        if tot > full:
            return 0
    return p[1]


# lengths of strings never exceed isize::MAX; characters are scalar values
FN_MAX = {'strlen': (1 << 62) - 1, 'utf8len': 4, 'char': 0x10ffff, 'byte': 255}


def atom_umax(x):
    d = ATOMS[x]
    if d[0] == 'zext':
        return umax(d[1])
    if d[0] == 'fn' and d[1] in FN_MAX:
        return FN_MAX[d[1]]
    w = atom_width(d)
    if d[0] == 'anf':
        m = 0
        for k, v in d[1]:
            if k:
                mm = 0
                for q in k:
                    u = umax(q)
                    b = (1 << u.bit_length()) - 1
                    mm = b if mm == 0 else mm & b
                m |= v & mm
            else:
                m |= v
        return m
    if d[0] == 'lshr' and is_const(d[2]):
        return umax(d[1]) >> cval(d[2])
    if d[0] == 'udiv' and is_const(d[2]) and cval(d[2]):
        return umax(d[1]) // cval(d[2])
    if d[0] == 'udiv':
        return umax(d[1])
    if d[0] == 'bool':
        return d[3] & ((1 << w) - 1)
    return (1 << w) - 1


def sat_overflow(op, signed, a, b):
    """canonical overflow literal of a op b"""
    w = a[0]
    if op == 'Add':
        if signed:
            for x, y in ((a, b), (b, a)):
                if is_const(y):
                    k = sval(y)
                    if is_const(x):
                        r = sval(x) + k
                        return not -(1 << (w - 1)) <= r < (1 << (w - 1))
                    if k == 0:
                        return False
                    if k > 0:
                        return slt(const((1 << (w - 1)) - 1 - k, w), x)
                    return slt(x, const(-(1 << (w - 1)) - k, w))
            x, y = sorted((a, b))
            return bop('saddo', x, y)
        if umax(a) + umax(b) < (1 << w):
            return False
        for x, y in ((a, b), (b, a)):
            if is_const(y):
                return ult(const((1 << w) - 1 - cval(y), w), x)
        x, y = sorted((a, b))
        return bop('uaddo', x, y)
    if op == 'Sub':
        if signed:
            if is_const(b):
                k = sval(b)
                if k == 0:
                    return False
                if k > 0:
                    return slt(a, const(-(1 << (w - 1)) + k, w))
                return slt(const((1 << (w - 1)) - 1 + k, w), a)
            if is_const(a):
                k = sval(a)     # k - b overflow
                if k >= 0:
                    return slt(b, const(k - ((1 << (w - 1)) - 1), w)) if k > 0 else eq(b, const(1 << (w - 1), w))
                return slt(const(k + (1 << (w - 1)), w), b)
            return bop('ssubo', a, b)
        return ult(a, b)
    if op == 'Mul':
        if not signed:
            if umax(a) * umax(b) < (1 << w):
                return False
            for x, y in ((a, b), (b, a)):
                if is_const(y) and cval(y):
                    return ult(const(((1 << w) - 1) // cval(y), w), x)
        else:
            for x, y in ((a, b), (b, a)):
                if is_const(y):
                    if sval(y) in (0, 1):
                        return False
                    if sval(y) == -1:
                        return eq(x, const(1 << (w - 1), w))
                    if sval(y) > 0 and umax(x) < 1 << (w - 1):
                        k = ((1 << (w - 1)) - 1) // sval(y)
                        return slt(const(k, w), x) if k < umax(x) else False
        x, y = sorted((a, b))
        return bop('smulo' if signed else 'umulo', x, y)
    raise ValueError(op)


def bool_int(b, w, true_val=1):
    if b is True:
        return const(true_val, w)
    if b is False:
        return const(0, w)
    if not b[2]:
        # canonical on the positive literal: tv - [b]*tv
        return sub(const(true_val, w), bool_int(bneg(b), w, true_val))
    return mulc(at(('bool', b, w, 1), w), true_val)


# ------------------------------------------------------------------ substitution / display

def atoms_of(v, acc=None):
    """all atom ids reachable in a value (deep)"""
    if acc is None:
        acc = set()
    if isinstance(v, P):
        for mono, _ in v[2]:
            for x in mono:
                if x not in acc:
                    acc.add(x)
                    atoms_of(ATOMS[x][1:], acc)
    elif isinstance(v, tuple):
        for e in v:
            if isinstance(e, tuple):
                atoms_of(e, acc)
    return acc


def top_atoms(p):
    r = set()
    for mono, _ in p[2]:
        r.update(mono)
    return r


def subst(v, m, memo=None):
    """replace atoms by polys (m: atom id -> P), rebuilding normal forms"""
    if not m:
        return v
    if memo is None:
        memo = {}
    if isinstance(v, P):
        if not v[2]:
            return v
        r = memo.get(v)
        if r is not None:
            return r
        w = v[0]
        out = const(v[1], w)
        for mono, c in v[2]:
            t = const(c, w)
            for x in mono:
                t = mul(t, subst_atom(x, m, memo))
            out = add(out, t)
        memo[v] = out
        return out
    if isinstance(v, B):
        return rebuild_bool(v, m, memo)
    if isinstance(v, Fl):
        return Fl(tuple(subst(e, m, memo) if isinstance(e, tuple) else e for e in v))
    if type(v) is tuple:
        return tuple(subst(e, m, memo) if isinstance(e, tuple) else e for e in v)
    return v


def subst_atom(x, m, memo):
    r = m.get(x)
    if r is not None:
        return r
    d = ATOMS[x]
    k = d[0]
    if k == 's':
        n = subst(d[1], m, memo) if isinstance(d[1], tuple) else d[1]
        return atom_poly(x) if n == d[1] else sym(n, d[2])
    if k == 'zext':
        return zext(subst(d[1], m, memo), d[2])
    if k == 'sext':
        return sext(subst(d[1], m, memo), d[2])
    if k == 'trunc':
        return trunc(subst(d[1], m, memo), d[2])
    if k == 'anf':
        out = const(0, d[2])
        for ks, v in d[1]:
            t = const(v, d[2])
            for q in ks:
                t = band(t, subst(q, m, memo))
            out = bxor(out, t)
        return out
    if k in ('shl', 'lshr', 'ashr', 'sdiv', 'udiv'):
        f = {'shl': shl, 'lshr': lshr, 'ashr': ashr, 'sdiv': sdiv, 'udiv': udiv}[k]
        return f(subst(d[1], m, memo), subst(d[2], m, memo))
    if k == 'fn':
        return fn(d[1], tuple(subst(a, m, memo) if isinstance(a, tuple) else a for a in d[2]), d[3])
    if k == 'bool':
        return bool_int(subst(d[1], m, memo), d[2], 1)
    return atom_poly(x)


def rebuild_bool(b, m, memo):
    if b is True or b is False:
        return b
    k, a, pol = b
    if k == 'eq0':
        p = subst(a, m, memo)
        r = eq(p, const(0, p[0]))
    elif k == 'ult':
        r = ult(subst(a[0], m, memo), subst(a[1], m, memo))
    elif k == 'slt':
        r = slt(subst(a[0], m, memo), subst(a[1], m, memo))
    else:
        na = tuple(subst(e, m, memo) if isinstance(e, tuple) else e for e in a) if isinstance(a, tuple) else a
        r = B((k, na, True))
        if k == 'op' and na and na[0] in ('saddo', 'uaddo', 'ssubo', 'smulo', 'umulo'):
            n = na[0]
            op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[n[1:4]]
            r = sat_overflow(op, n[0] == 's', na[1], na[2])
    return r if pol else bneg(r)


def show(v, depth=0):
    if depth > 12:
        return '...'
    if isinstance(v, P):
        w, c, items = v
        parts = []
        for mono, k in items:
            ks = tosigned(k, w)
            ms = '*'.join(show_atom(x, depth + 1) for x in mono)
            parts.append(ms if ks == 1 else ('-' + ms if ks == -1 else '%d*%s' % (ks, ms)))
        cs = tosigned(c, w)
        if cs or not parts:
            parts.append(str(cs))
        return '(' + ' + '.join(parts) + ')' if len(parts) > 1 else parts[0]
    if isinstance(v, B):
        k, a, pol = v
        n = '' if pol else '!'
        if k == 'eq0':
            return '%s(%s == 0)' % (n, show(a, depth + 1))
        if k in ('ult', 'slt'):
            return '%s(%s <%s %s)' % (n, show(a[0], depth + 1), k[0], show(a[1], depth + 1))
        return '%s%s' % (n, show(a, depth + 1))
    if isinstance(v, tuple):
        return '(' + ','.join(show(e, depth + 1) for e in v) + ')'
    return str(v)


def show_name(n):
    if isinstance(n, tuple):
        if n and n[0] == 'fld':
            return '%s.%s' % (show_name(n[1]), n[-1])
        if n and n[0] == 'idx':
            return '%s[%s]' % (show_name(n[1]), show(n[2]) if isinstance(n[2], tuple) else n[2])
        return '(' + ','.join(show_name(e) if isinstance(e, tuple) and not isinstance(e, (P, B)) else show(e) for e in n) + ')'
    return str(n)


def show_atom(x, depth=0):
    d = ATOMS[x]
    k = d[0]
    if k == 's':
        return show_name(d[1])
    if k in ('zext', 'sext', 'trunc'):
        return '%s%d(%s)' % (k, d[2], show(d[1], depth))
    if k == 'anf':
        return 'bits{%s}' % ' ^ '.join(('&'.join([show(q, depth + 1) for q in ks] + ([] if v == (1 << d[2]) - 1 and ks else [hex(v)]))) for ks, v in d[1])
    if k == 'fn':
        return '%s(%s)' % (show_name(d[1]) if isinstance(d[1], tuple) else d[1], ','.join(show(a, depth + 1) for a in d[2]))
    if k == 'bool':
        return '[%s]' % show(d[1], depth + 1)
    return '%s(%s)' % (k, ','.join(show(a, depth + 1) for a in d[1:]))
