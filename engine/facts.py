"""Path facts: a conjunction of canonical literals, an equality substitution and a
convex-polyhedra (linear inequality) view of the literals used to decide bounds.

`Facts` objects are immutable; `assume` returns a new one (or None when the new
literal contradicts what is known)."""
import math
from fractions import Fraction
from terms import *
import terms


FREL = {'flt': {'l'}, 'fle': {'l', 'e'}, 'feq': {'e'}}
FLIP = {'l': 'g', 'g': 'l', 'e': 'e', 'u': 'u'}


class Facts:
    __slots__ = ('lits', 'm', 'cache', 'memo')

    def __init__(self, lits=None, m=None):
        self.lits = lits or {}
        self.m = m or {}
        self.cache = {}
        self.memo = {}

    def simp(self, v):
        return subst(v, self.m, self.memo) if self.m else v

    def decide(self, b, deep=True):
        if b is True or b is False:
            return b
        k = (b, deep)
        if k in self.cache:
            return self.cache[k]
        r = self._decide(b, deep)
        self.cache[k] = r
        return r

    def branch(self, b):
        """(truth value, condition to split on): a condition that combines truth values
        arithmetically is split on those first"""
        r = self.decide(b)
        if r is not None:
            return r, None
        b = self.simp(b)
        fl = flags_in(b)
        if fl and len(fl) <= 4 and b[0] in ('eq0', 'ult', 'slt'):
            m = {}
            for x in sorted(fl):
                d = ATOMS[x]
                v = self.decide(d[1])
                if v is None:
                    return None, d[1]
                m[x] = const(1 if v else 0, d[2])
            b = subst(b, m)
            r = self.decide(b)
            return r, (b if r is None else None)
        return None, b

    def canon(self, b):
        """x <u c with x a multiple of 2^k >= c is x == 0"""
        if isinstance(b, tuple) and b[0] == 'ult':
            x, c = b[1]
            if is_const(c) and 1 < cval(c) <= 64 and not is_const(x):
                z = tz_poly(x, self.lits)
                if z and cval(c) <= (1 << z):
                    e = eq(x, const(0, x[0]))
                    return e if b[2] else bneg(e)
        return b

    def _decide(self, b, deep):
        b = self.canon(self.simp(b))
        if b is True or b is False:
            return b
        pos = B((b[0], b[1], True))
        r = self.lits.get(pos)
        if r is not None:
            return r if b[2] else not r
        if b[0] == 'op' or b[0] == 'sym':
            if b[0] == 'op' and b[1][0] in FREL:
                return self.frel(b)
            if b[0] == 'op' and b[1][0] in ('saddo', 'uaddo', 'ssubo', 'umulo'):
                return numeric_decide(self.lits, b) if deep else None
            return None
        if deep:
            return numeric_decide(self.lits, b)
        return None

    def frel(self, b):
        """order relation of two floats: less, equal, greater or unordered"""
        n, x, y = b[1]
        poss = {'e', 'u'} if x == y else {'l', 'e', 'g', 'u'}
        for l, v in self.lits.items():
            if l[0] == 'op' and l[1][0] in FREL:
                n2, p, q = l[1]
                if (p, q) == (x, y):
                    t = FREL[n2]
                elif (q, p) == (x, y):
                    t = {FLIP[k] for k in FREL[n2]}
                else:
                    continue
                poss &= t if v == l[2] else {'l', 'e', 'g', 'u'} - t
        t = FREL[n]
        if poss <= t:
            return b[2]
        if not poss & t:
            return not b[2]
        return None

    def assume(self, b, force=False):
        d = self.decide(b)
        if d is True and not force or self.simp(b) is True:
            return self
        if d is False:
            return None
        b = self.canon(self.simp(b))
        pos = B((b[0], b[1], True))
        lits = dict(self.lits)
        lits[pos] = b[2]
        m = self.m
        extra = []
        if b[0] == 'eq0' and b[2]:
            sub_ = solve_eq(b[1])
            if sub_ is not None:
                x, t = sub_
                one = {x: t}
                memo = {}
                om = m
                m = {k: subst(v, one, memo) for k, v in m.items()}
                m[x] = t
                # unknowns already solved whose name mentions x have a new name now
                for k in om:
                    nk = subst_atom(k, one, memo)
                    if single(nk) is None or nk != atom_poly(k):
                        extra.append(eq(nk, m[k]))
                nl = {}
                for k, v in lits.items():
                    if k == pos:
                        continue
                    r = subst(k, one, memo)
                    if r is True or r is False:
                        if r != v:
                            return None
                        continue
                    if not r[2]:
                        r, v = bneg(r), not v
                    if nl.get(r, v) != v:
                        return None
                    nl[r] = v
                lits = nl
        if b[0] == 'ult' and is_const(b[1][1]):
            e = self.pinned(b[1][0], lits)
            if e is not None:
                extra.append(e)
        r = Facts(lits, m)
        for b in extra:
            r = r.assume(b, True)
            if r is None:
                return None
        return r

    def pinned(self, p, lits):
        """comparisons with constants that leave a single value for p"""
        w = p[0]
        mask = (1 << w) - 1
        con = []
        cand = None
        for l, v in lits.items():
            if l[0] != 'ult' or l[1][0][0] != w or not is_const(l[1][1]):
                continue
            c = sub(l[1][0], p)
            if not is_const(c):
                continue
            c, k = cval(c), cval(l[1][1])
            con.append((c, k, v))
            if v and k <= 64 and (cand is None or k < len(cand)):
                cand = [(j - c) & mask for j in range(k)]
        if cand is None:
            return None
        def ok(x):
            if any((((x + c) & mask) < k) != v for c, k, v in con):
                return False
            e = eq(p, const(x, w))
            if e is True or e is False:
                return e
            r = lits.get(B((e[0], e[1], True)))
            return r is None or r == e[2]
        cand = [x for x in cand if ok(x)]
        return eq(p, const(cand[0], w)) if len(cand) == 1 else None

    def infeasible(self):
        return numeric_infeasible(self.lits, [])

    def __repr__(self):
        return ' & '.join(show(k if v else bneg(k)) for k, v in self.lits.items()) + \
            ''.join(' & %s=%s' % (show_atom(k), show(v)) for k, v in self.m.items())


def flags_in(v):
    """atoms of truth values that a condition combines"""
    out = set()

    def poly(p):
        for mono, _ in p[2]:
            for x in mono:
                d = ATOMS[x]
                if d[0] == 'bool':
                    out.add(x)
                elif d[0] == 'anf':
                    for ks, m in d[1]:
                        for q in ks:
                            poly(q)
                elif d[0] in ('zext', 'sext', 'trunc'):
                    poly(d[1])
    for q in (v[1:2] if v[0] == 'eq0' else v[1]):
        if isinstance(q, P):
            poly(q)
    return out


def tz_mask(m):
    return (m & -m).bit_length() - 1 if m else 64


def tz_poly(p, lits):
    """number of low bits known to be zero"""
    z = tz_mask(p[1]) if p[1] else 64
    for mono, c in p[2]:
        t = tz_mask(c)
        for x in mono:
            t += tz_atom(x, lits)
        z = min(z, t)
        if not z:
            return 0
    return z


def tz_atom(x, lits):
    d = ATOMS[x]
    if d[0] == 'anf':
        z = 64
        for ks, m in d[1]:
            z = min(z, tz_mask(m))
        return z
    if d[0] == 'zext':
        return tz_poly(d[1], lits)
    z = 0
    for l, v in lits.items():
        if v == l[2] and l[0] == 'eq0' and len(l[1][2]) == 1:
            (mono, c), = l[1][2]
            if len(mono) == 1 and not l[1][1]:
                e = ATOMS[mono[0]]
                if e[0] == 'anf' and len(e[1]) == 1 and len(e[1][0][0]) == 1:
                    q, msk = e[1][0][0][0], e[1][0][1]
                    if msk & (msk + 1) == 0 and q[2] == (((x,), 1),) and not q[1]:
                        z = max(z, msk.bit_length())
    return z


def solve_eq(p):
    """p == 0  ->  (atom, poly) with atom not occurring in poly"""
    w = p[0]
    full = (1 << w) - 1
    cands = [(mono[0], c) for mono, c in p[2] if len(mono) == 1 and c in (1, full)]
    # prefer the youngest atom, and plain symbols
    def rank(xc):
        d = ATOMS[xc[0]]
        return (0 if d[0] == 's' else 1, -xc[0])
    for x, c in sorted(cands, key=rank):
        if ATOMS[x][0] in ('bool', 'zext', 'sext', 'anf'):
            continue
        rest = P((w, p[1], tuple((mm, cc) for mm, cc in p[2] if mm != (x,))))
        t = neg(rest) if c == 1 else rest
        if x in atoms_of(t):
            continue
        return x, t
    return None


# ---------------------------------------------------------------------- numeric view

class Num:
    """translation of literals to linear constraints over integer-valued unknowns"""

    def __init__(self):
        self.vars = {}      # key -> index
        self.lo = []
        self.hi = []
        self.isint = []     # split candidates (wrap / sign counters)
        self.cons = []      # list of (dict var->Fraction/int, const)  meaning sum + const >= 0
        self.done = {}
        self.depth = 0

    def var(self, key, lo, hi, split=False):
        i = self.vars.get(key)
        if i is None:
            i = len(self.lo)
            self.vars[key] = i
            self.lo.append(lo)
            self.hi.append(hi)
            self.isint.append(split)
        return i

    def atom_expr(self, x):
        d = ATOMS[x]
        k = d[0]
        if k == 'zext':
            return self.U(d[1])
        if k == 'bool':
            i = self.var(('a', x), 0, 1, True)
            return ({i: 1}, 0)
        new = ('a', x) not in self.vars
        i = self.var(('a', x), 0, atom_umax(x))
        if new and self.depth < 6:
            self.depth += 1
            self.atom_axioms(x, d, i)
            self.depth -= 1
        return ({i: 1}, 0)

    def atom_axioms(self, x, d, i):
        k = d[0]
        e = ({i: 1}, 0)
        if k == 'sext':
            s = self.S(d[1])
            # U = S + 2^w * n  with n in {0,1}
            n = self.var(('sx', x), 0, 1, True)
            self.eq(e, lin_add(s, ({n: 1 << d[2]}, 0)))
        elif k == 'anf':
            it = d[1]
            w = d[2]
            full = (1 << w) - 1
            if len(it) == 1 and len(it[0][0]) == 1:
                q, msk = it[0][0][0], it[0][1]
                inv = full ^ msk
                if inv & (inv + 1) == 0:          # high mask: clears low bits
                    r = self.var(('r', x), 0, inv)
                    self.eq(e, lin_sub(self.U(q), ({r: 1}, 0)))
                elif msk & (msk + 1) == 0:        # low mask: q - h*(mask+1)
                    h = self.var(('h', x), 0, full // (msk + 1))
                    self.eq(e, lin_sub(self.U(q), ({h: msk + 1}, 0)))
                else:
                    self.ge(lin_sub(self.U(q), e))
        elif k == 'fn' and d[1] == 'utf8len':
            # 1 + [c >= 0x80] + [c >= 0x800] + [c >= 0x10000]
            c = self.U(d[2][0])
            s = ({}, 1)
            for n, lim in enumerate((0x80, 0x800, 0x10000)):
                b = self.var(('u8', x, n), 0, 1, True)
                s = lin_add(s, ({b: 1}, 0))
                self.ge(lin_sub(c, ({b: lim}, 0)))
                self.ge(lin_sub(({b: 1 << 32}, lim - 1), c))
            self.eq(e, s)
        elif k == 'fn' and d[1] in ('byte', 'char'):
            # the first byte of an ASCII character is the character
            y = terms._AIDX.get(('fn', 'char', d[2], 32) if d[1] == 'byte' else ('fn', 'byte', d[2], 8))
            j = self.vars.get(('a', y)) if y is not None else None
            if j is not None:
                c, b = (({j: 1}, 0), e) if d[1] == 'byte' else (e, ({j: 1}, 0))
                m = self.var(('u8b', min(x, y)), 0, 1, True)
                self.ge(lin_sub(c, ({m: 0x80}, 0)))
                self.ge(lin_sub(({m: 1 << 32}, 0x7f), c))
                self.ge(lin_sub(b, ({m: 0x80}, 0)))
                self.ge(lin_sub(({m: 1 << 32}, 0), lin_sub(b, c)))
                self.ge(lin_sub(({m: 1 << 32}, 0), lin_sub(c, b)))
        elif k == 'lshr' and is_const(d[2]):
            n = cval(d[2])
            r = self.var(('r', x), 0, (1 << n) - 1)
            self.eq(lin_add(lin_scale(e, 1 << n), ({r: 1}, 0)), self.U(d[1]))
        elif k == 'udiv':
            if is_const(d[2]) and cval(d[2]):
                n = cval(d[2])
                r = self.var(('r', x), 0, n - 1)
                self.eq(lin_add(lin_scale(e, n), ({r: 1}, 0)), self.U(d[1]))
            else:
                self.ge(lin_sub(self.U(d[1]), e))

    def U(self, p):
        key = ('U', p)
        if key in self.done:
            return self.done[key]
        w = p[0]
        M = 1 << w
        e = ({}, tosigned(p[1], w))
        lo = hi = e[1]
        for mono, c in p[2]:
            cs = tosigned(c, w)
            if len(mono) == 1:
                x = mono[0]
                ae = self.atom_expr(x)
                mx = atom_umax(x)
            else:
                mx = 1
                for x in mono:
                    mx *= atom_umax(x)
                ae = ({self.var(('m', mono), 0, mx): 1}, 0)
            e = lin_add(e, lin_scale(ae, cs))
            if cs > 0:
                hi += cs * mx
            else:
                lo += cs * mx
        klo, khi = lo // M, hi // M
        if klo == khi:
            e = (e[0], e[1] - klo * M)
        else:
            kv = self.var(('k', p), klo, khi, True)
            e = lin_add(e, ({kv: -M}, 0))
        if p[2]:
            self.ge(e)
            self.ge(lin_sub(({}, M - 1), e))
        self.done[key] = e
        return e

    def S(self, p):
        key = ('S', p)
        if key in self.done:
            return self.done[key]
        w = p[0]
        if is_const(p):
            e = ({}, sval(p))
        else:
            u = self.U(p)
            if umax(p) < (1 << (w - 1)):
                e = u
            else:
                s = self.var(('s', p), 0, 1, True)
                e = lin_add(u, ({s: -(1 << w)}, 0))
                h = 1 << (w - 1)
                self.ge(lin_add(e, ({}, h)))
                self.ge(lin_sub(({}, h - 1), e))
        self.done[key] = e
        return e

    def ge(self, e):
        self.cons.append(e)

    def eq(self, a, b):
        d = lin_sub(a, b)
        self.cons.append(d)
        self.cons.append(lin_scale(d, -1))

    def literal(self, b, val):
        """returns list of alternatives (each a list of >=0 exprs)"""
        k, a, pol = b
        if not pol:
            val = not val
        if k == 'ult':
            x, y = self.U(a[0]), self.U(a[1])
            return [[lin_add(lin_sub(y, x), ({}, -1))]] if val else [[lin_sub(x, y)]]
        if k == 'slt':
            x, y = self.S(a[0]), self.S(a[1])
            return [[lin_add(lin_sub(y, x), ({}, -1))]] if val else [[lin_sub(x, y)]]
        if k == 'eq0':
            # split p = pos - neg for a friendlier translation
            pos, ng = split_poly(a)
            x, y = self.U(pos), self.U(ng)
            if val:
                return [[lin_sub(x, y), lin_sub(y, x)]]
            return [[lin_add(lin_sub(x, y), ({}, -1))], [lin_add(lin_sub(y, x), ({}, -1))]]
        if k == 'op':
            n = a[0]
            if n in ('uaddo',):
                s = lin_add(self.U(a[1]), self.U(a[2]))
                M = 1 << a[1][0]
                return [[lin_add(s, ({}, -M))]] if val else [[lin_sub(({}, M - 1), s)]]
            if n in ('saddo', 'ssubo'):
                s = lin_add(self.S(a[1]), self.S(a[2])) if n == 'saddo' else lin_sub(self.S(a[1]), self.S(a[2]))
                h = 1 << (a[1][0] - 1)
                if val:
                    return [[lin_add(s, ({}, -h))], [lin_sub(({}, -h - 1), s)]]
                return [[lin_sub(({}, h - 1), s), lin_add(s, ({}, h))]]
        return None


def split_poly(p):
    w = p[0]
    pos, ng = {}, {}
    for mono, c in p[2]:
        if c >> (w - 1):
            ng[mono] = -c
        else:
            pos[mono] = c
    cs = tosigned(p[1], w)
    return (mk(w, cs if cs > 0 else 0, pos), mk(w, -cs if cs < 0 else 0, ng))


def lin_add(a, b):
    d = dict(a[0])
    for k, v in b[0].items():
        d[k] = d.get(k, 0) + v
        if d[k] == 0:
            del d[k]
    return (d, a[1] + b[1])


def lin_scale(a, k):
    if k == 0:
        return ({}, 0)
    return ({i: v * k for i, v in a[0].items()}, a[1] * k)


def lin_sub(a, b):
    return lin_add(a, lin_scale(b, -1))


def relevant(lits, goals):
    want = set()
    for g in goals:
        want |= atoms_of(g[1])
    items = [(k, v, atoms_of(k[1])) for k, v in lits.items() if k[0] in ('eq0', 'ult', 'slt') or
             (k[0] == 'op' and k[1][0] in ('saddo', 'uaddo', 'ssubo'))]
    out = []
    changed = True
    rounds = 0
    while changed and rounds < 4:
        changed = False
        rounds += 1
        rest = []
        for it in items:
            if it[2] & want:
                out.append(it)
                want |= it[2]
                changed = True
            else:
                rest.append(it)
        items = rest
    return [(k, v) for k, v, _ in out]


STATS = {'lp': 0, 'num': 0}


def numeric_infeasible(lits, extra, budget=200):
    """True when the conjunction has no solution in the linear view"""
    STATS['num'] += 1
    n = Num()
    alts = []
    rel = relevant(lits, [e[0] for e in extra]) if extra else list(lits.items())
    for b, v in rel + extra:
        a = n.literal(b, v)
        if a is None:
            continue
        if len(a) == 1:
            n.cons.extend(a[0])
        else:
            alts.append(a)
    # an alternative that the bounds exclude leaves the other one
    while alts:
        bd = bounds(n, {})
        if bd is None:
            return True
        lo, hi = bd
        rest = []
        for a in alts:
            ok = [x for x in a if all(sum(k * (hi[i] if k > 0 else lo[i]) for i, k in d.items()) + c >= 0 for d, c in x)]
            if not ok:
                return True
            if len(ok) == 1:
                n.cons.extend(ok[0])
            elif not any(all(sum(k * (lo[i] if k > 0 else hi[i]) for i, k in d.items()) + c >= 0 for d, c in x) for x in ok):
                rest.append(ok)
        if len(rest) == len(alts):
            break
        alts = rest
    # disequalities from facts are only useful when few; goal ones always kept (last)
    keep = alts[-4:]
    return not _search(n, dict(), keep, [budget])


def _search(n, fixed, alts, budget):
    """is there possibly a feasible point?"""
    if budget[0] <= 0:
        return True
    budget[0] -= 1
    sol = lp_feasible(n, fixed)
    if sol is None:
        return False
    # branch on integer counters with fractional value first
    for i, sp in enumerate(n.isint):
        if sp and i not in fixed:
            v = sol[i]
            if isinstance(v, Fraction) and v.denominator != 1:
                for val in range(n.lo[i], min(n.hi[i], n.lo[i] + 5) + 1):
                    f = dict(fixed)
                    f[i] = val
                    if _search(n, f, alts, budget):
                        return True
                return False
    if alts:
        a = alts[0]
        # satisfied already?
        for alt in a:
            if all(sum(c * sol[i] for i, c in e[0].items()) + e[1] >= 0 for e in alt):
                saved = n.cons
                n.cons = saved + alt
                r = _search(n, fixed, alts[1:], budget)
                n.cons = saved
                if r:
                    return True
        for alt in a:
            saved = n.cons
            n.cons = saved + alt
            r = _search(n, fixed, alts[1:], budget)
            n.cons = saved
            if r:
                return True
        return False
    return True


def bounds(n, fixed):
    """bound propagation -> (lo, hi) or None"""
    # all unknowns are integers, so bounds are rounded inwards
    lo = list(n.lo)
    hi = list(n.hi)
    for i, v in fixed.items():
        lo[i] = hi[i] = v
    cons = n.cons
    for _ in range(8):
        changed = False
        for d, c in cons:
            # sum d_i x_i + c >= 0
            mx = c
            for i, k in d.items():
                mx += k * (hi[i] if k > 0 else lo[i])
            if mx < 0:
                return None
            for i, k in d.items():
                if k > 0:
                    h = hi[i]
                    w = mx // k
                    if h - w > lo[i]:
                        lo[i] = h - w
                        changed = True
                        if lo[i] > h:
                            return None
                else:
                    l = lo[i]
                    w = mx // -k
                    if l + w < hi[i]:
                        hi[i] = l + w
                        changed = True
                        if hi[i] < l:
                            return None
        if not changed:
            break
    return lo, hi


def lp_feasible(n, fixed):
    """bound propagation, then phase-1 simplex (exact) -> assignment list or None"""
    STATS['lp'] += 1
    nv = len(n.lo)
    bd = bounds(n, fixed)
    if bd is None:
        return None
    lo, hi = bd
    cons = n.cons
    # simplex: y_i = x_i - lo_i >= 0, y_i <= hi_i - lo_i
    rows = []
    used = set()
    for d, c in cons:
        cc = c
        mn = c
        for i, k in d.items():
            cc += k * lo[i]
            mn += k * (lo[i] if k > 0 else hi[i])
        # already implied by the bounds
        if mn >= 0:
            continue
        rows.append((d, cc))
        used.update(d)
    for i in used:
        rows.append(({i: -1}, hi[i] - lo[i]))
    y = simplex(rows, used, nv)
    if y is None:
        return None
    return [lo[i] + y.get(i, 0) for i in range(nv)]


def simplex(rows, vars_, nv):
    """find y>=0 with sum d_i y_i + c >= 0 for all rows, else None.
    Bland's rule; each row is den * basic = sum d_i x_i + c with integers, den > 0."""
    basic = {}
    for r, (d, c) in enumerate(rows):
        basic[nv + r] = (1, d, c)
    gcd = math.gcd
    it = 0
    while True:
        bad = -1
        for b, row in basic.items():
            if row[2] < 0 and (bad < 0 or b < bad):
                bad = b
        it += 1
        if bad < 0 or it > 400:     # (too many pivots: claim feasible)
            return {i: (Fraction(basic[i][2], basic[i][0]) if i in basic else 0) for i in vars_}
        den, d, c = basic.pop(bad)
        ent = -1
        for v, k in d.items():
            if k > 0 and (ent < 0 or v < ent):
                ent = v
        if ent < 0:
            return None
        k = d[ent]
        # k * ent = den * bad - c - sum rest
        nd = {v: -x for v, x in d.items() if v != ent}
        nd[bad] = den
        nc = -c
        for b, (dn, dd, cc) in list(basic.items()):
            f = dd.get(ent)
            if f is None:
                continue
            nn = {v: x * k for v, x in dd.items() if v != ent}
            for v, x in nd.items():
                t = nn.get(v, 0) + f * x
                if t:
                    nn[v] = t
                else:
                    nn.pop(v, None)
            dn *= k
            cc = cc * k + f * nc
            g = gcd(dn, cc, *nn.values())
            if g > 1:
                dn //= g
                cc //= g
                nn = {v: x // g for v, x in nn.items()}
            basic[b] = (dn, nn, cc)
        basic[ent] = (k, nd, nc)


def numeric_decide(lits, b):
    if numeric_infeasible(lits, [(b, True)]):
        return False
    if numeric_infeasible(lits, [(b, False)]):
        return True
    return None
