"""Reference transfer functions of Forth words, and comparison with the code's.

A spec is a Python function over `S`, an interface to an abstract VM state.  It is run once
per path of the implementation, under that path's facts; the two resulting abstract states
must agree on every place of the VM, on memory writes and on observable events."""
import math
import random
import struct
from terms import *
import terms
from facts import Facts
from interp import *
import models
from vm import *

STACKS = {'s': 's_stack', 'r': 'r_stack', 'f': 'f_stack', 'c': 'c_stack'}


class Bound(Exception):
    """the path runs a loop further than the reference follows it"""


class S:
    def __init__(self, W, st):
        self.W = W
        self.I = W.I
        self.st = st
        self.aborted = False

    # -- control
    def cond(self, b):
        r, f = self.st.facts.branch(b)
        if r is None:
            raise Fork(f)
        return r

    def assume(self, b):
        f = self.st.facts.assume(b)
        if f is None:
            raise Dead()
        self.st.facts = f

    def stop(self):
        raise SpecStop()

    def diverge(self):
        """the word never returns"""
        self.st.status = 'diverge'
        raise SpecStop()

    # -- places
    def at(self, accessor):
        return acc(self.W, self.I, self.st, accessor)

    def fget(self, ref, name):
        return get_field(self.W, self.I, self.st, ref, name)

    def fset(self, ref, name, v):
        set_field(self.W, self.I, self.st, ref, name, v)

    def fref(self, ref, name):
        e = self.W.field(ref.to, name)
        return Ref(ref.root, ref.path + (e,), None, e[3])

    def state(self, name):
        return self.fget(self.at('state'), name)

    def set_state(self, name, v):
        self.fset(self.at('state'), name, v)

    @property
    def ip(self):
        return self.state('instruction_pointer')

    @ip.setter
    def ip(self, v):
        self.set_state('instruction_pointer', v)

    def vm(self, name):
        return self.fget(self.W.vmref, name)

    def set_vm(self, name, v):
        self.fset(self.W.vmref, name, v)

    def rd(self, ref):
        return self.I.read(self.st, ref.root, ref.path, ref.to)

    def wr(self, ref, v):
        self.I.write(self.st, ref.root, ref.path, v, ref.to)

    # -- stacks
    def stk(self, k):
        return self.at(STACKS[k])

    def depth(self, k='s'):
        return self.fget(self.stk(k), 'len')

    def set_depth(self, n, k='s'):
        self.fset(self.stk(k), 'len', n)

    def slot(self, ix, k='s'):
        r = self.stk(k)
        e = self.W.field(r.to, 'inner')
        ety = self.W.T[e[3]]['elem']
        return Ref(r.root, r.path + (e, ('i', zext(ix, 64), ety)), None, ety)

    def get(self, n, k='s'):
        """n-th entry from the top, 1 = top"""
        return self.rd(self.slot(addc(self.depth(k), -n), k))

    def put(self, n, v, k='s'):
        self.wr(self.slot(addc(self.depth(k), -n), k), v)

    def pop(self, k='s'):
        v = self.get(1, k)
        self.set_depth(addc(self.depth(k), -1), k)
        return v

    def push(self, v, k='s'):
        self.set_depth(addc(self.depth(k), 1), k)
        self.put(1, v, k)

    def pops(self, n, k='s'):
        r = [self.pop(k) for _ in range(n)]
        return r[::-1]

    def rpop(self):
        return self.pop('r')

    def rpush(self, v):
        self.push(v, 'r')

    def fpop(self):
        return self.pop('f')

    def fpush(self, v):
        self.push(v, 'f')

    def flag(self, b):
        r = self.st.facts.decide(b)
        self.push(bool_int(b if r is None else r, 64, -1) if r is None else const(-1 if r else 0, 64))

    # -- memory
    def ty(self, name):
        for k, t in self.W.T.items():
            if t.get('n') == name and t.get('k') in ('int', 'uint', 'float'):
                return k
        raise AnchorError('type ' + name)

    def load(self, addr, ty='Isize'):
        return self.I.raw_read(self.st, addr, self.ty(ty))

    def store(self, addr, v, ty='Isize'):
        self.I.raw_write(self.st, addr, self.ty(ty), v)

    def ds(self):
        return self.at('data_space')

    def start(self):
        v = self.fget(self.ds(), 'inner')
        return self.I.ptr_int(self.st, v)

    def limit(self):
        return add(self.start(), self.fget(self.ds(), 'cap'))

    def here(self):
        return add(self.start(), self.fget(self.ds(), 'len'))

    def set_here(self, a):
        self.fset(self.ds(), 'len', sub(a, self.start()))

    def comma(self, v, ty='Isize'):
        """append one cell to the data space"""
        h = self.here()
        self.store(h, v, ty)
        self.set_here(addc(h, 8 if ty != 'U8' else 1))

    def put_str(self, addr, v, n=None):
        """copy the bytes of a string to memory"""
        s = v if isinstance(v, Str) else models.str_of(self.I, self.st, v)
        put_bytes(self.I, self.st, addr, s, models.strlen(self.I, self.st, s) if n is None else n)

    def aref(self, ref, ix):
        """element place of an array place"""
        e = self.W.T[ref.to]['elem']
        return Ref(ref.root, ref.path + (('i', ix, e),), None, e)

    def vpush(self, ref, v):
        n = models.vec_len(self.I, self.st, ref)
        ety = self.elem_ty(ref)
        self.I.write(self.st, ref.root, ref.path + (('g', 'elems'), ('i', n, ety)), v, ety)
        models.vec_set_len(self.I, self.st, ref, addc(n, 1))

    def vset_len(self, ref, n):
        models.vec_set_len(self.I, self.st, ref, n)

    def struct(self, name, **kw):
        ty = self.W.tyname(name) if isinstance(name, str) else name
        return Ag(ty, 0, {i: kw[n] for n, i, ft in self.W.fields(ty)})

    def cstr(self, addr):
        """string stored in memory as a length cell and bytes"""
        n = self.load(addr, 'Usize')
        return Ref(('raw', addc(addr, 8)), (), n, None)

    def eqci(self, a, b):
        x, y = (models.str_of(self.I, self.st, v) if not isinstance(v, Str) else v for v in (a, b))
        p, q = sorted([x.p, y.p], key=str)
        return bop('eqci', p, q)

    def hash(self, v):
        return h_hash(self.I, self.st, None, [v], None)

    def strlen(self, v):
        return models.strlen(self.I, self.st, v if isinstance(v, Str) else models.str_of(self.I, self.st, v))

    def compile_str(self, v):
        return h_compile_str(self.I, self.st, None, [None, v], None)

    def align(self, n=8):
        self.set_here(align_up(self.here(), n))

    # -- dictionary
    def word(self, xt):
        import registry
        return registry.word_ref(self.W, self.st, xt)

    def nwords(self):
        return words_len(self.W, self.I, self.st)

    def wget(self, xt, name):
        return self.fget(self.word(xt), name)

    def wset(self, xt, name, v):
        self.fset(self.word(xt), name, v)

    def last(self):
        return self.fget(self.at('wordlist'), 'last')

    def ref(self, name):
        """xt of a word the compiler refers to"""
        return self.fget(self.at('references'), name)

    def icall(self, fv, *extra):
        nm = fv.name if isinstance(fv, Sym) else str(fv)
        self.I.event(self.st, ('ICALL', nm, tuple(self.I.valname(a) for a in extra), Snap(self.st)))
        havoc_vm(self.W, self.I, self.st)

    # -- control-flow stack
    def ctl_ty(self):
        return self.W.T[self.W.field(self.stk('c').to, 'inner')[3]]['elem']

    def cpush(self, name, *fields):
        self.push(self.mkvar(self.ctl_ty(), name, *fields), 'c')

    def cpop(self):
        """(variant name, payloads) of the top control entry; 'underflow' if there is none"""
        ty = self.ctl_ty()
        v = self.get(1, 'c')
        if self.cond(eq(self.depth('c'), const(0, 8))):
            # below the bottom of the stack lies the canary
            self.assume(eq(self.I.discr_of_value(self.st, v, ty, 64), c64(int(
                self.W.T[ty]['variants'][models.variant_idx(self.I, ty, 'Canary')]['discr']))))
            return 'underflow', ()
        v = self.pop('c')
        n, vi = self.variant(v, ty)
        fs = self.W.T[ty]['variants'][vi]['fields']
        return n, [self.payload(v, ty, vi, k) for k in range(len(fs))]

    # -- effects
    def abort(self, code):
        """raise exception `code`: nothing else may follow"""
        v = exc_value(self.W, code)
        h_abort(self.I, self.st, None, [self.W.vmref, v], None)
        raise SpecStop()

    def abort_then(self, code, after):
        """raise exception `code`, and then do no more than `after`"""
        v = exc_value(self.W, code)
        h_abort(self.I, self.st, None, [self.W.vmref, v], None)
        after()
        raise SpecStop()

    def exec(self, xt):
        h_exec(self.I, self.st, None, [self.W.vmref, xt], None)

    def call(self, method, *args):
        """summary of a callee (parse_word, find, define)"""
        f = self.W.fn(method)
        h = self.W.opaque[f.id]
        dty = f.locals[0]
        return h(self.I, self.st, f, [self.W.vmref] + list(args), dty)

    def run(self, method, *args):
        """perform a VM accessor method (getter or setter) of the analysed program on this state"""
        W, I, st = self.W, self.I, self.st
        f = W.fn(method) if isinstance(method, str) else W.p.fns[method]
        rs = I.run(f, [W.vmref] + list(args), heap=dict(st.heap), facts=st.facts)
        if len(rs) == 1 and rs[0].status == 'ret':
            r = rs[0]
            st.heap, st.facts, st.mem = r.heap, r.facts, st.mem + tuple(r.mem)
            return r.ret
        bad = [r for r in rs if r.status != 'ret']
        if bad:
            raise Unsup('accessor %s: %s %s' % (method, bad[0].status, bad[0].why))
        for r in rs:
            for b, v in r.facts.lits.items():
                if st.facts.decide(b) is None:
                    raise Fork(b)
        raise Unsup('accessor %s is ambiguous' % method)

    # host files
    def file(self, op, *args):
        """one host call on files; True if it succeeded"""
        self.k = models.file_event(self.I, self.st, op, *args)
        return self.cond(bop('fileok', c64(self.k)))

    def fileval(self, ty=None):
        """what the last host call returned"""
        return self.I.symval(('fileval', self.k), ty) if ty is not None else sym(('fileval', self.k), 64)

    def name(self, v):
        return self.I.valname(v)

    def tyref(self, name):
        return self.W.tyname(name)

    def payty(self, table):
        """type held by the Option elements of a table"""
        e = models.vec_elem_ty(self.I, self.at(table).to)
        return self.I.T[e]['variants'][models.variant_idx(self.I, e, 'Some')]['fields'][0][1]

    def result(self, n=1, k='s'):
        """the n-th entry from the top that the analysed path leaves, for results the documentation leaves open"""
        i = self.W.impl
        if i is None or i.status != 'ret':
            return None
        return self.st.facts.simp(S(self.W, i).get(n, k))

    def error_ref(self):
        return error_place(self.W, self.I)

    def elem_ty(self, ref):
        """element type of a vector place"""
        return models.vec_elem_ty(self.I, ref.to)

    def none(self, ref):
        """make an Option place None"""
        self.wr(ref, models.none(self.I, ref.to))

    def some(self, ref, v):
        self.wr(ref, models.some(self.I, ref.to, v))

    def is_some(self, ref):
        return self.opt(ref) is not None

    def text(self, ref):
        """an iterator over the characters of the substring `ref`"""
        return Chars(self, ref)

    def sub(self, ref, lo):
        """text of a String place from byte `lo` on, or None if that is not inside it on a character boundary"""
        r = ref if ref.meta is not None else models.strref(self.I, self.st, ref, None)
        st = models.str_of(self.I, self.st, r)
        n = self.st.facts.simp(r.meta)
        if not self.cond(ule(lo, n)):
            return None
        b = self.st.facts.simp(lo)
        if not (b == c64(0) or b == n) and not self.cond(bop('charb', st.p, b)):
            return None
        return models.subrange(self.I, self.st, r, lo, n, None, None)

    def payref(self, ref, name='Some', k=0):
        """place of a payload of an enum place known to be in variant `name`"""
        vi = models.variant_idx(self.I, ref.to, name)
        fty = self.W.T[ref.to]['variants'][vi]['fields'][k][1]
        return Ref(ref.root, ref.path + (('f', k, vi, fty),), None, fty)

    def token(self):
        return self.payref(self.at('last_token'))

    def ev(self, *e):
        self.I.event(self.st, e)

    def variant(self, v, ty):
        """variant name of an enum value; splits the analysis if unknown"""
        i = self.I.variant_of(self.st, v, ty)
        return self.W.T[ty]['variants'][i]['name'], i

    def payload(self, v, ty, vi, k=0):
        fty = self.W.T[ty]['variants'][vi]['fields'][k][1]
        return self.I.elem(self.st, v, ('f', k, vi, fty))

    def mkvar(self, ty, name, *fields):
        return Ag(ty, models.variant_idx(self.I, ty, name), {i: f for i, f in enumerate(fields)})

    def capacity(self, ref):
        return models.M['std::vec::Vec::<T, A>::capacity'](self.I, self.st, None, [ref], None)

    # -- bit sets
    def bit(self, ref, n):
        return models.bs_contains(self.I, self.st, self.rd(ref).name, n)

    def set_bit(self, ref, n, on):
        if self.bit(ref, n) != on:
            models.bs_update(self.I, self.st, ref, 'add' if on else 'del', self.st.facts.simp(n))

    def opt(self, ref):
        """contents of an Option place, or None"""
        v = self.rd(ref)
        n, vi = self.variant(v, ref.to)
        if n == 'None':
            return None
        return self.payload(v, ref.to, vi)


class Chars:
    def __init__(self, s, ref):
        ref = self._whole(s, ref)
        self.s, self.ref, self.pos = s, ref, c64(0)
        self.n = s.st.facts.simp(ref.meta)

    @staticmethod
    def _whole(s, ref):
        return ref if ref.meta is not None else models.strref(s.I, s.st, ref, None)

    def next(self):
        """(byte offset, character) or None at the end"""
        s = self.s
        if not s.cond(ult(self.pos, self.n)):
            return None
        b, off = models.sub_base(models.str_of(s.I, s.st, self.ref))
        c = fn('char', (b, add(off, self.pos)), 32)
        ln = fn('utf8len', (c,), 64)
        for q in (ult(c, const(0x110000, 32)), bneg(eq(ln, c64(0))), ult(ln, c64(5)), ule(add(self.pos, ln), self.n)):
            s.assume(q)
        p = self.pos
        self.pos = s.st.facts.simp(add(self.pos, ln))
        return p, s.st.facts.simp(c)


def align_up(a, n):
    w = a[0]
    return band(addc(a, n - 1), const(-n, w))


def c64(v):
    return const(v, 64)


# ------------------------------------------------------------------ preconditions

def initial(W, need=None, opts=()):
    """facts every word may assume: VM invariants plus enough operands on the stacks"""
    st = W.newst({}, W.base_facts())
    s = S(W, st)
    fx = st.facts

    def A(b):
        f = st.facts.assume(b)
        if f is None:
            raise AnchorError('contradictory invariants at %s' % show(b))
        st.facts = f
    start, cap, ln = s.start(), s.fget(s.ds(), 'cap'), s.fget(s.ds(), 'len')
    A(bneg(ult(start, c64(4096))))
    A(ult(start, c64(1 << 47)))
    A(eq(band(start, c64(4095)), c64(0)))
    A(ult(cap, c64(1 << 40)))
    A(eq(band(cap, c64(4095)), c64(0)))
    A(bneg(ult(c64(1 << 40), cap)))
    A(bneg(ult(cap, c64(PAGE_SLACK + 64))))
    if 'nospace' in opts:
        A(ule(ln, cap))
    else:
        A(ule(ln, addc(cap, -PAGE_SLACK)))
    A(bneg(ult(ln, c64(16))))
    A(ult(ln, c64(1 << 40)))
    # fixed dictionary facts: the words the compiler refers to exist
    A(ult(s.nwords(), c64(1 << 32)))
    if 'wp' in opts:
        A(ult(s.state('word_pointer'), s.nwords()))
    if 'aligned' in opts:
        A(eq(band(ln, c64(7)), c64(0)))
    need = need or {}
    for k in STACKS:
        lo, extra = need.get(k, (0, 4))
        d = s.depth(k)
        if 'anydepth' in opts:
            continue
        if lo:
            A(bneg(ult(d, const(lo, 8))))
        A(ule(d, const(64 - extra, 8)))
    # no pending error
    if 'anyerror' not in opts:
        le = error_place(W, W.I)
        if le is not None:
            v = s.rd(le)
            A(eq(W.I.discr_of_value(st, v, le.to, 64), c64(int(W.T[le.to]['variants'][models.variant_idx(W.I, le.to, 'None')]['discr']))))
    # token and input buffers are not borrowed between words
    for a in ('last_token', 'output_buffer'):
        if a in ('output_buffer',) and 'outbuf' not in opts:
            continue
        r = s.at(a)
        v = s.rd(r)
        A(eq(W.I.discr_of_value(st, v, r.to, 64), c64(int(W.T[r.to]['variants'][models.variant_idx(W.I, r.to, 'Some')]['discr']))))
    if 'canary' in opts:
        for k in ('s', 'r', 'f', 'c'):
            r = s.stk(k)
            cv = s.fget(r, 'canary')
            for ix in (255, 64):
                x = s.rd(s.slot(const(ix, 8), k))
                if isinstance(x, P):
                    A(eq(x, cv))
                elif isinstance(x, Fl):
                    pass
                else:
                    cvty = W.field(r.to, 'canary')[3]
                    n = [i for i, v in enumerate(W.T[cvty]['variants']) if v['name'] == 'Canary']
                    if n:
                        for q in (x, cv):
                            A(eq(W.I.discr_of_value(st, q, cvty, 64), c64(int(W.T[cvty]['variants'][n[0]]['discr']))))
    for o in opts:
        if callable(o):
            o(s, A)
    return st.facts


def run_spec(W, fn, facts, args=(), cut=None):
    """list of final states of the reference function under the given facts"""
    out = []
    work = [facts]
    n = 0
    beyond = False
    while work:
        n += 1
        if n > 400:
            if cut is not None and out:
                cut.append(len(work))       # the rest stays undecided
                break
            raise Unsup('spec explosion')
        fx = work.pop()
        st = W.newst({}, fx)
        for r, t in W.I.rootty.items():
            pass
        s = S(W, st)
        try:
            st.ret = fn(s, *args)
            st.status = 'ret'
            out.append(st)
        except SpecStop:
            st.status = st.status or 'ret'
            out.append(st)
        except PanicPath as e:
            st.status = 'panic'
            st.why = (e.kind, e.why, None)
            out.append(st)
        except Bound:
            beyond = True
        except Dead:
            pass
        except Fork as e:
            a, b = st.facts.assume(e.b), st.facts.assume(bneg(e.b))
            if a is not None:
                work.append(a)
            if b is not None:
                work.append(b)
    if beyond and not out:
        raise Bound()
    return out


# ------------------------------------------------------------------ comparison

class Diff:
    def __init__(self):
        self.bad = []       # (what, impl, spec)
        self.unk = []


def cmp_scalar(W, fx, what, a, b, d):
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, B) or isinstance(b, B):
        if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
            ra, rb = fx.decide(a), fx.decide(b)
            if ra is not None and rb is not None:
                if ra != rb:
                    d.bad.append((what, a, b))
                return
            if fx.simp(a) == fx.simp(b):
                return
            raise_split(W, fx, [a, b], d, what, a, b)
            return
        d.bad.append((what, a, b))
        return
    if isinstance(a, P) and isinstance(b, P):
        if a[0] != b[0]:
            d.bad.append((what, a, b))
            return
        e = eq(fx.simp(a), fx.simp(b))
        r = fx.decide(e)
        if r is True:
            return
        if r is False:
            d.bad.append((what, fx.simp(a), fx.simp(b)))
            return
        # embedded conditions: split on booleans inside
        for x in atoms_of(fx.simp(a)) | atoms_of(fx.simp(b)):
            ds = terms.ATOMS[x]
            if ds[0] == 'bool':
                r = fx.decide(ds[1])
                for val in (True, False) if r is None else (r,):
                    f2 = fx.assume(ds[1] if val else bneg(ds[1]))
                    if f2 is not None:
                        m = {x: const((ds[3] if len(ds) > 3 else 1) & ((1 << ds[2]) - 1) if val else 0, ds[2])}
                        cmp_scalar(W, f2, what, terms.subst(f2.simp(a), m, {}), terms.subst(f2.simp(b), m, {}), d)
                return
        w = witness(fx, fx.simp(a), fx.simp(b))
        k = sub(fx.simp(a), fx.simp(b)) if isinstance(a, P) and isinstance(b, P) and a[0] == b[0] else None
        if not w and k is not None and is_const(k) and cval(k):
            w = {'difference on every run of this path': hex(cval(k))}
        if w:
            d.bad.append((what, fx.simp(a), fx.simp(b), w))
        else:
            d.unk.append((what, fx.simp(a), fx.simp(b)))
        return
    if isinstance(a, Fl) and isinstance(b, Fl):
        a, b = normfl(fx.simp(a)), normfl(fx.simp(b))
        if a != b:
            p, q = scaled(a), scaled(b)
            if p and q and p[0] == q[0] and abs(p[1] - q[1]) <= 1e-12 * abs(q[1]):
                return
            r = cmp_fl(W, fx, a, b)
            if r == 'unk':
                d.unk.append((what, a, b))
            elif r == 'bad':
                d.bad.append((what, a, b))
        return
    d.bad.append((what, a, b))


def cmp_fl(W, fx, a, b):
    """'eq', 'bad' or 'unk' for two float terms"""
    if a == b:
        return 'eq'
    if isinstance(a, Fl) and isinstance(b, Fl):
        if a[0] != b[0] or len(a) != len(b) or a[0] in ('c', 's'):
            return 'bad'
        rs = [max((cmp_fl(W, fx, x, y) for x, y in zip(a[1:], o)), key=('eq', 'unk', 'bad').index)
              for o in ([b[1:], b[:0:-1]] if a[0] in ('fadd', 'fmul') else [b[1:]])]
        return min(rs, key=('eq', 'unk', 'bad').index)
    if isinstance(a, P) and isinstance(b, P) and a[0] == b[0]:
        r = fx.decide(eq(a, b))
        if r is not None:
            return 'eq' if r else 'bad'
        return 'bad' if witness(fx, a, b) else 'unk'
    return 'bad'


def raise_split(W, fx, conds, d, what, a, b):
    for c in conds:
        if isinstance(c, B) and fx.decide(c) is None:
            for v in (c, bneg(c)):
                f2 = fx.assume(v)
                if f2 is not None:
                    cmp_scalar(W, f2, what, a, b, d)
            return
    d.unk.append((what, a, b))


ONE = Fl(('c', 0x3ff0000000000000))


def normfl(f):
    """rewrites that are exact for every IEEE double"""
    if not isinstance(f, Fl):
        return f
    args = tuple(normfl(x) if isinstance(x, Fl) else x for x in f[1:])
    n = f[0]
    if n == 'i2f':
        return i2f(*args)
    if n == 'fsub':
        n, args = 'fadd', (args[0], fneg(args[1]))
    if n == 'fneg':
        return fneg(args[0])
    if n == 'fdiv' and args[1] == ONE:
        return args[0]
    if n == 'fmul':
        if args[0] == ONE:
            return args[1]
        if args[1] == ONE:
            return args[0]
    if n == 'abs' and isinstance(args[0], Fl) and args[0][0] == 'fneg':
        return normfl(Fl(('abs', args[0][1])))
    if n in ('fadd', 'fmul', 'min', 'max'):
        args = tuple(sorted(args, key=str))
    return Fl((n,) + args)


def scaled(f):
    """(x, k) for a chain of multiplications and divisions of x by constants"""
    if f[0] == 'fneg':
        r = scaled(f[1])
        return r and (r[0], -r[1])
    if f[0] in ('fmul', 'fdiv'):
        a, b = f[1], f[2]
        if f[0] == 'fmul' and a[0] == 'c':
            a, b = b, a
        if b[0] == 'c':
            r, v = scaled(a), struct.unpack('<d', struct.pack('<Q', b[1]))[0]
            if r and v and v == v:
                return (r[0], r[1] * v if f[0] == 'fmul' else r[1] / v)
        return None
    if f[0] == 'to_radians':
        r = scaled(f[1])
        return r and (r[0], r[1] * math.pi / 180.0)
    return (f, 1.0)


def fneg(x):
    if x[0] == 'fneg':
        return x[1]
    if x[0] == 'c':
        return Fl(('c', x[1] ^ (1 << 63)))
    return Fl(('fneg', x))


def is_stack_ty(W, ty):
    t = W.T.get(ty) if ty is not None else None
    if not t or t.get('k') != 'adt' or t.get('ak') != 'Struct':
        return False
    n = [x[0] for x in t['variants'][0]['fields']]
    return 'inner' in n and 'len' in n and 'canary' in n


def child_ty(W, ty, var, k):
    t = W.T.get(ty) if ty is not None else None
    if not t:
        return None
    try:
        if t['k'] == 'adt':
            return t['variants'][var or 0]['fields'][k][1]
        if t['k'] == 'tuple':
            return t['elems'][k]
    except Exception:
        return None


def cmp_value(W, sti, sts, fx, what, a, b, ty, d, skip=()):
    """structural comparison of two abstract values (implementation, reference)"""
    if a is b or a == b:
        return
    if what in skip:
        return
    I = W.I
    if is_stack_ty(W, ty):
        cmp_stack(W, sti, sts, fx, what, a, b, ty, d)
        return
    if isinstance(a, (P, B, Fl, bool)) or isinstance(b, (P, B, Fl, bool)):
        cmp_scalar(W, fx, what, a, b, d)
        return
    if isinstance(a, Str) or isinstance(b, Str):
        tmp = W.newst({}, fx)
        sa = a if isinstance(a, Str) else models.str_of(I, tmp, a)
        sb = b if isinstance(b, Str) else models.str_of(I, tmp, b)
        cmp_str(W, fx, what, sa, sb, d)
        return
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a.root[0] == 'raw' and b.root[0] == 'raw' and not a.path and not b.path:
            cmp_scalar(W, fx, what, a.root[1], b.root[1], d)
            return
        if fx.simp(a.root) == fx.simp(b.root) and fx.simp(a.path) == fx.simp(b.path) and (a.meta == b.meta or (isinstance(a.meta, P) and isinstance(b.meta, P) and fx.decide(eq(a.meta, b.meta)) is True)):
            return
        d.bad.append((what, a, b))
        return
    if isinstance(a, (Arr,)) or isinstance(b, (Arr,)):
        cmp_arr(W, sti, sts, fx, what, a, b, ty, d)
        return
    if isinstance(a, (Ag, Sym)) and isinstance(b, (Ag, Sym)):
        a, b = simp_base(fx, a), simp_base(fx, b)
        if a == b:
            return
        va = a.var if isinstance(a, Ag) else None
        vb = b.var if isinstance(b, Ag) else None
        t = W.T.get(ty) if ty is not None else None
        if t and t.get('ak') == 'Enum':
            tmp = W.newst({}, fx)
            try:
                da, db = I.discr_of_value(tmp, a, ty, 64), I.discr_of_value(tmp, b, ty, 64)
            except Unsup:
                d.unk.append((what, a, b))
                return
            n0 = len(d.bad) + len(d.unk)
            cmp_scalar(W, fx, what + '.variant', da, db, d)
            if len(d.bad) + len(d.unk) > n0:
                return
            if va is None and vb is None:
                # same variant, unknown which: names must agree
                fa = a.base if isinstance(a, Ag) else a
                fb = b.base if isinstance(b, Ag) else b
                if fa == fb and not (isinstance(a, Ag) and a.f) and not (isinstance(b, Ag) and b.f):
                    return
                for i, v in enumerate(t['variants']):
                    r = fx.decide(eq(da, const(int(v['discr']), 64)))
                    if r is not False:
                        va = i
                        break
            var = va if va is not None else vb
            for k, (n, fty) in enumerate(t['variants'][var]['fields']):
                try:
                    x = I.elem(W.newst({}, fx), with_var(a, var), ('f', k, var, fty))
                    y = I.elem(W.newst({}, fx), with_var(b, var), ('f', k, var, fty))
                except (Unsup, Fork) as e:
                    d.unk.append((what, a, b))
                    continue
                cmp_value(W, sti, sts, fx, '%s.%s' % (what, n), x, y, fty, d, skip)
            return
        keys = set(a.f if isinstance(a, Ag) else ()) | set(b.f if isinstance(b, Ag) else ())
        base_a = a if isinstance(a, Sym) else a.base
        base_b = b if isinstance(b, Sym) else b.base
        if base_a != base_b:
            # different unknown bases: compare all fields known by type
            if t and t.get('k') == 'adt' and t.get('ak') == 'Struct':
                keys |= set(range(len(t['variants'][0]['fields'])))
            elif t and t.get('k') == 'tuple':
                keys |= set(range(len(t['elems'])))
            else:
                d.bad.append((what, a, b))
                return
            if isinstance(a, Sym) and isinstance(b, Sym) and (W.T.get(ty, {}).get('crate') or not keys):
                d.bad.append((what, a, b))
                return
        for k in sorted(keys, key=str):
            cty = child_ty(W, ty, 0, k) if isinstance(k, int) else None
            nm = what
            if isinstance(k, int) and t and t.get('k') == 'adt':
                nm = '%s.%s' % (what, t['variants'][0]['fields'][k][0])
            elif isinstance(k, tuple):
                nm = '%s.<%s>' % (what, k[1])
            else:
                nm = '%s.%s' % (what, k)
            e = ('f', k, 0, cty) if isinstance(k, int) else k
            try:
                x = I.elem(W.newst({}, fx), a, e)
                y = I.elem(W.newst({}, fx), b, e)
            except (Unsup, Fork) as ex:
                d.unk.append((nm, a, b))
                continue
            cmp_value(W, sti, sts, fx, nm, x, y, cty, d, skip)
        return
    d.bad.append((what, a, b))


def simp_base(fx, v):
    """the value with facts applied to the name of the unknown it is built on"""
    if isinstance(v, Sym):
        return Sym(fx.simp(v.name), v.ty) if isinstance(v.name, tuple) else v
    if isinstance(v, Ag) and isinstance(v.base, Sym):
        return Ag(v.ty, v.var, v.f, simp_base(fx, v.base))
    return v


def with_var(v, var):
    if isinstance(v, Ag) and v.var is None and v.base is not None:
        return Ag(v.ty, var, v.f, v.base)
    return v


def arr_indices(v):
    return [i for i, _ in v.w] if isinstance(v, Arr) else []


def arr_base(v):
    return v if isinstance(v, Sym) else v.base


def cmp_arr(W, sti, sts, fx, what, a, b, ty, d, live=None):
    I = W.I
    t = W.T.get(ty) if ty is not None else None
    ety = t.get('elem') if t else (a.ety if isinstance(a, Arr) else b.ety if isinstance(b, Arr) else None)
    if not isinstance(a, (Arr, Sym)) or not isinstance(b, (Arr, Sym)):
        d.bad.append((what, a, b))
        return
    ba, bb = arr_base(a), arr_base(b)
    if ba != bb:
        if live is None:
            d.bad.append((what + '[..]', a, b))
            return
    seen = []
    for ix in arr_indices(a) + arr_indices(b):
        ix = fx.simp(ix)
        if ix in seen:
            continue
        seen.append(ix)
        if live is not None and live(ix) is False:
            continue
        try:
            x = I.elem(W.newst({}, fx), a, ('i', ix, ety))
            y = I.elem(W.newst({}, fx), b, ('i', ix, ety))
        except Fork as e:
            for v in (e.b, bneg(e.b)):
                f2 = fx.assume(v)
                if f2 is not None:
                    cmp_arr(W, sti, sts, f2, what, a, b, ty, d, live)
            return
        except Unsup:
            d.unk.append((what, a, b))
            continue
        cmp_value(W, sti, sts, fx, '%s[%s]' % (what, show(ix)), x, y, ety, d)


def cmp_stack(W, sti, sts, fx, what, a, b, ty, d):
    """stacks agree when depth, canary and every entry below the depth agree"""
    I = W.I
    tmp = W.newst({}, fx)
    le, ie, ce = W.field(ty, 'len'), W.field(ty, 'inner'), W.field(ty, 'canary')
    la, lb = I.elem(tmp, a, le), I.elem(tmp, b, le)
    n0 = len(d.bad) + len(d.unk)
    cmp_scalar(W, fx, what + '.depth', la, lb, d)
    if len(d.bad) + len(d.unk) > n0:
        return
    cmp_value(W, sti, sts, fx, what + '.canary', I.elem(tmp, a, ce), I.elem(tmp, b, ce), ce[3], d)
    ln = zext(lb, 64)

    def live(ix):
        if ix in (c64(64), c64(255)):
            return True             # the guard cells
        return fx.decide(ult(ix, ln))
    cmp_arr(W, sti, sts, fx, what, I.elem(tmp, a, ie), I.elem(tmp, b, ie), ie[3], d, live)


def whole(fx, p):
    """substrings that are provably all of their string"""
    out = []
    for x in p:
        if x[0] == 'sub' and fx.decide(eq(x[3], c64(0))) is True:
            continue
        if x[0] == 'sub' and is_const(x[2]) and cval(x[2]) == 0:
            n = models.strlen(None, Simp(fx), x[1])
            if fx.decide(eq(x[3], n)) is True:
                out += list(x[1].p)
                continue
        out.append(x)
    return tuple(out)


class Simp:
    def __init__(self, fx):
        self.facts = fx


def cmp_str(W, fx, what, a, b, d):
    pa, pb = fx.simp(tuple(a.p)), fx.simp(tuple(b.p))
    if pa == pb:
        return
    pa, pb = models.norm_fmt(whole(fx, models.merge_chars(pa))), models.norm_fmt(whole(fx, models.merge_chars(pb)))
    if pa == pb:
        return
    if any(x[0] == 'arg' and (x[1][1] is not None or x[1][3] is not None or x[1][4] is not None) for x in pa + pb):
        # a field width or precision computed at run time: not a normal form
        d.unk.append((what, a, b))
        return
    ka, kb = set(x[0] for x in pa), set(x[0] for x in pb)
    if ('arr' in ka | kb) or ('sub' in ka ^ kb and 'lit' in ka ^ kb):
        d.unk.append((what, a, b))
        return
    if len(pa) == len(pb):
        for x, y in zip(pa, pb):
            if x == y:
                continue
            if x[0] == y[0] == 'sub' and x[1] == y[1]:
                for u, v in zip(x[2:], y[2:]):
                    cmp_scalar(W, fx, what, u, v, d)
                continue
            if x[0] == y[0] and len(x) == len(y) and x[0] in ('fmt', 'ch'):
                n = len(d.bad) + len(d.unk)
                for u, v in zip(x[1:], y[1:]):
                    if u == v:
                        continue
                    if isinstance(u, P) and isinstance(v, P):
                        cmp_scalar(W, fx, what, u, v, d)
                    else:
                        d.bad.append((what, a, b))
                        return
                continue
            d.bad.append((what, a, b))
            return
        return
    d.bad.append((what, a, b))


def mem_equal(W, fx, a, b, d):
    """memory write logs agree (order of provably disjoint writes is irrelevant)"""
    def simp(x):
        if x[0] == 'w':
            return ('w', fx.simp(x[1]), x[2], fx.simp(x[3]) if isinstance(x[3], tuple) else x[3])
        return tuple(fx.simp(e) if isinstance(e, tuple) else e for e in x)
    la, lb = coalesce(fx, [simp(x) for x in a]), coalesce(fx, [simp(x) for x in b])
    if len(la) != len(lb):
        d.bad.append(('memory writes', [fmt_w(x) for x in la], [fmt_w(x) for x in lb]))
        return
    lb = list(lb)
    for x in la:
        for k, y in enumerate(lb):
            if x[0] != y[0]:
                break
            if x[0] == 'w':
                if x[2] == y[2] and fx.decide(eq(x[1], y[1])) is True:
                    cmp_value(W, None, None, fx, 'memory[%s]' % show(x[1]), x[3], y[3], None, d)
                    lb.pop(k)
                    break
                # may skip over a disjoint write
                if not disjoint(fx, x, y):
                    d.bad.append(('memory writes', fmt_w(x), fmt_w(y)))
                    return
                continue
            if x == y:
                lb.pop(k)
                break
            if x[0] == 'bytes' and fx.decide(eq(x[1], y[1])) is True and fx.decide(eq(x[2], y[2])) is True:
                cmp_str(W, fx, 'memory[%s..]' % show(x[1]), Str(x[3]), Str(y[3]), d)
                lb.pop(k)
                break
            d.bad.append(('memory', x, y))
            return
        else:
            d.bad.append(('memory writes', fmt_w(x), [fmt_w(y) for y in lb]))
            return


def coalesce(fx, l):
    """drop a write that is overwritten before anything else happens"""
    out = []
    for x in l:
        if x[0] == 'w' and x[2] == 1 and isinstance(x[3], P):
            # bytes of one string stored one after the other
            b = byte_src(x[3])
            if b:
                z = out[-1] if out else None
                if z and z[0] == 'bytes' and add(z[1], z[2]) == x[1] and len(z[3]) == 1 and z[3][0][0] == 'sub' and z[3][0][1] == b[0] and add(z[3][0][2], z[3][0][3]) == b[1]:
                    out[-1] = ('bytes', z[1], addc(z[2], 1), (('sub', b[0], z[3][0][2], addc(z[3][0][3], 1)),))
                else:
                    out.append(('bytes', x[1], c64(1), (('sub', b[0], b[1], c64(1)),)))
                continue
        if x[0] == 'w':
            k = len(out)
            while k and out[k - 1][0] == 'w':
                k -= 1
            out[k:] = [y for y in out[k:] if not (y[2] == x[2] and y[1] == x[1])]
        out.append(x)
    return out


def byte_src(v):
    if v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1 and len(v[2][0][0]) == 1:
        d = terms.ATOMS[v[2][0][0][0]]
        if d[0] == 'fn' and d[1] == 'byte':
            return Str(d[2][0]), d[2][1]
    return None


def disjoint(fx, x, y):
    dd = sub(y[1], x[1])
    return fx.decide(bneg(ult(dd, const(x[2], 64)))) is True and fx.decide(bneg(ult(neg(dd), const(y[2], 64)))) is True


def fmt_w(x):
    if x[0] == 'w':
        return 'store%d [%s] := %s' % (x[2] * 8, show(x[1]), x[3])
    return str(x)[:200]


OBS = ('NUMBER', 'ABORT', 'EXEC', 'ICALL', 'CALL', 'PARSE', 'DEFINE', 'extern', 'copy', 'print', 'FILE', 'WRONG')


def obs(st):
    return [e for e in st.events if e[0][0] in OBS]


def compare(W, sti, sts, d, skip=(), ret=False):
    """final implementation state against final reference state, under the reference facts"""
    fx = sts.facts
    if sti.status == 'diverge' and sts.status == 'diverge':
        return
    if sti.status != sts.status:
        d.bad.append(('termination', '%s %s' % (sti.status, sti.why or ''), '%s %s' % (sts.status, sts.why or '')))
        return
    ea, eb = obs(sti), obs(sts)
    for x, y in zip(ea, eb):
        if x[0][0] != y[0][0]:
            d.bad.append(('effect', fmt_ev(W, x[0]), fmt_ev(W, y[0])))
            return
        if x[0][0] == 'ABORT':
            cmp_value(W, sti, sts, fx, 'exception code', x[0][1], y[0][1], exc_type(W), d)
            # what the word does after raising
            va, vb = sts.heap.get(W.root), sti.heap.get(W.root)
            if y[0][2].get(W.root) == va:
                # the reference does nothing more; what was left unfinished before does not matter
                va = x[0][2].get(W.root)
            if va is not vb and va != vb:
                d2 = Diff()
                cmp_value(W, sti, sts, fx, 'vm', vb, va, W.vmty, d2)
                for q in d2.bad:
                    d.bad.append(('after raising an exception: ' + q[0],) + q[1:])
                d.unk += d2.unk
            if sti.mem != x[0][3]:
                d.bad.append(('after raising an exception: memory writes', [fmt_w(m) for m in sti.mem[len(x[0][3]):]], []))
            if len(ea) > len(eb):
                d.bad.append(('after raising an exception', [fmt_ev(W, e[0]) for e in ea[len(eb):]], 'nothing'))
            mem_equal(W, fx, x[0][3], y[0][3], d)
            # everything the exception does not discard: all but the data, float and control stacks
            ta, tb = W.newst(dict(x[0][2]), fx), W.newst(dict(y[0][2]), fx)
            try:
                for k in ('s', 'f', 'c'):
                    r = acc(W, W.I, ta, STACKS[k])
                    W.I.write(tb, r.root, r.path, W.I.read(ta, r.root, r.path, r.to), r.to)
                a, b = (t.heap.get(W.root, Sym(W.root, W.vmty)) for t in (ta, tb))
                d2 = Diff()
                cmp_value(W, ta, tb, fx, 'vm', a, b, W.vmty, d2, skip)
                for q in d2.bad:
                    d.bad.append(('before raising the exception: ' + q[0],) + q[1:])
                d.unk += d2.unk
            except (Unsup, Fork) as e:
                d.unk.append(('state at the exception', str(e), ''))
            return
        for u, v in zip(x[0][1:], y[0][1:]):
            if u == v:
                continue
            if isinstance(u, Snap) and isinstance(v, Snap):
                d2 = Diff()
                ta, tb = W.newst(dict(u.heap), fx), W.newst(dict(v.heap), fx)
                cmp_value(W, ta, tb, fx, 'vm', u.heap.get(W.root, Sym(W.root, W.vmty)), v.heap.get(W.root, Sym(W.root, W.vmty)), W.vmty, d2, skip)
                mem_equal(W, fx, u.mem, v.mem, d2)
                for q in d2.bad:
                    d.bad.append(('when %s: %s' % (fmt_ev(W, x[0]), q[0]),) + q[1:])
                d.unk += d2.unk
                continue
            if isinstance(u, (P, B, Fl)) and isinstance(v, (P, B, Fl)):
                cmp_scalar(W, fx, 'effect %s' % x[0][0], u, v, d)
            elif isinstance(u, Str) and isinstance(v, Str):
                cmp_str(W, fx, 'effect %s' % x[0][0], u, v, d)
            elif fx.simp(u) != fx.simp(v):
                d.bad.append(('effect', fmt_ev(W, x[0]), fmt_ev(W, y[0])))
                return
    if len(ea) != len(eb):
        d.bad.append(('effects', [fmt_ev(W, e[0]) for e in ea], [fmt_ev(W, e[0]) for e in eb]))
        return
    mem_equal(W, fx, sti.mem, sts.mem, d)
    a, b = sti.heap.get(W.root, Sym(W.root, W.vmty)), sts.heap.get(W.root, Sym(W.root, W.vmty))
    cmp_value(W, sti, sts, fx, 'vm', a, b, W.vmty, d, skip)
    for r in set(sti.heap) | set(sts.heap):
        if r[0] == '*' and r != W.root:
            x = sti.heap.get(r) or W.I.root_value_default(r)
            y = sts.heap.get(r) or W.I.root_value_default(r)
            if x is not None and y is not None:
                cmp_value(W, sti, sts, fx, W.pretty(r), x, y, W.I.rootty.get(r), d, skip)
    if ret:
        cmp_value(W, sti, sts, fx, 'return value', sti.ret, sts.ret, ret if isinstance(ret, int) and not isinstance(ret, bool) else None, d)


def fmt_ev(W, e):
    k = e[0]
    if k == 'ABORT':
        return 'raise %s' % (e[1],)
    return '%s%s' % (k, tuple(show(x) if isinstance(x, tuple) else str(x)[:80] for x in e[1:3] if not isinstance(x, Snap)))


# ------------------------------------------------------------------ witnesses

INTERESTING = (0, 1, 2, 3, 5, 7, 8, 9, 10, 16, 31, 32, 63, 64, 65, 127, 128, 255, 256, 1000, 4096)


def consts_in(v, acc, w=None):
    if isinstance(v, P):
        acc.add(v[1])
        for mono, c in v[2]:
            for x in mono:
                consts_in(terms.ATOMS[x], acc)
    elif isinstance(v, tuple):
        for e in v:
            if isinstance(e, tuple):
                consts_in(e, acc)


class Ev:
    """evaluation of term normal forms under a valuation of their unknowns"""

    def __init__(self, val):
        self.val = val
        self.memo = {}

    def p(self, t):
        r = self.memo.get(t)
        if r is None:
            w, c, items = t
            s = c
            for mono, k in items:
                m = k
                for x in mono:
                    m *= self.atom(x)
                s += m
            r = self.memo[t] = s & ((1 << w) - 1)
        return r

    def atom(self, x):
        r = self.memo.get(('a', x))
        if r is None:
            r = self.memo[('a', x)] = self._atom(x)
        return r

    def _atom(self, x):
        d = terms.ATOMS[x]
        k = d[0]
        if k == 's':
            return self.val(x)
        if k == 'zext':
            return self.p(d[1])
        if k == 'sext':
            return tosigned(self.p(d[1]), d[1][0]) & ((1 << d[2]) - 1)
        if k == 'trunc':
            return self.p(d[1]) & ((1 << d[2]) - 1)
        if k == 'bool':
            return (d[3] if len(d) > 3 else 1) & ((1 << d[2]) - 1) if self.b(d[1]) else 0
        if k == 'anf':
            w = d[2]
            out = 0
            for ks, m in d[1]:
                t = m
                for q in ks:
                    t &= self.p(q)
                out ^= t
            return out
        if k in ('shl', 'lshr', 'ashr'):
            w = d[1][0]
            a, n = self.p(d[1]), self.p(d[2]) % w
            if k == 'shl':
                return (a << n) & ((1 << w) - 1)
            if k == 'lshr':
                return a >> n
            return (tosigned(a, w) >> n) & ((1 << w) - 1)
        if k in ('sdiv', 'udiv'):
            w = d[1][0]
            a, n = self.p(d[1]), self.p(d[2])
            if n == 0:
                return 0
            if k == 'udiv':
                return a // n
            a, n = tosigned(a, w), tosigned(n, w)
            q = abs(a) // abs(n)
            return (q if (a < 0) == (n < 0) else -q) & ((1 << w) - 1)
        return self.val(x)

    def b(self, b):
        if b is True or b is False:
            return b
        k, a, pol = b
        if k == 'eq0':
            r = self.p(a) == 0
        elif k == 'ult':
            r = self.p(a[0]) < self.p(a[1])
        elif k == 'slt':
            r = tosigned(self.p(a[0]), a[0][0]) < tosigned(self.p(a[1]), a[1][0])
        elif k == 'op' and a[0] in ('saddo', 'ssubo', 'smulo', 'uaddo', 'umulo'):
            x, y = self.p(a[1]), self.p(a[2])
            w = a[1][0]
            if a[0][0] == 's':
                x, y = tosigned(x, w), tosigned(y, w)
            v = x + y if 'add' in a[0] else x - y if 'sub' in a[0] else x * y
            r = not (-(1 << (w - 1)) <= v < (1 << (w - 1))) if a[0][0] == 's' else not (0 <= v < (1 << w))
        else:
            r = self.val(('b', (k, a))) & 1 == 1
        return r if pol else not r


def bytes_of_chars(ats):
    """pairs of a character and its first byte among the unknowns"""
    ch = {terms.ATOMS[x][2]: x for x in ats if terms.ATOMS[x][:2] == ('fn', 'char')}
    return [(terms.P((32, 0, (((ch[terms.ATOMS[x][2]],), 1),))), terms.P((8, 0, (((x,), 1),))))
            for x in ats if terms.ATOMS[x][:2] == ('fn', 'byte') and terms.ATOMS[x][2] in ch]


def witness(fx, a, b, restarts=10, flips=250, seed=1):
    """a concrete valuation satisfying the facts under which the two terms differ, or None.
    Local repair search; used only to confirm a mismatch the abstract domain reports."""
    rnd = random.Random(seed)
    lits = list(fx.lits.items())
    cs = set()
    for l, _ in lits:
        consts_in(l, cs)
    consts_in(a, cs)
    consts_in(b, cs)
    pairs = bytes_of_chars(atoms_of(a) | atoms_of(b) | set().union(*[atoms_of(l) for l, _ in lits]) if lits else atoms_of(a) | atoms_of(b))
    lits0 = lits
    pool = sorted({c + dl for c in list(cs)[:60] + list(INTERESTING) for dl in (0, 1, -1)} | {1 << 63, (1 << 63) - 1, 1 << 62, 1 << 31})
    for _ in range(restarts):
        store = {}
        lits = list(lits0)
        for c, y in pairs:
            wide = rnd.random() < 0.5
            lits.append((ult(c, const(128, 32)), not wide))
            lits.append((ult(y, const(128, 8)), False) if wide else (eq(cast(y, 32, False), c), True))

        def rv(w):
            z = rnd.random()
            if z < 0.5:
                return rnd.choice(pool) * rnd.choice((1, 1, -1)) & ((1 << w) - 1)
            return rnd.getrandbits(rnd.randint(1, w))

        def val(x):
            r = store.get(x)
            if r is None:
                w = atom_width(terms.ATOMS[x]) if isinstance(x, int) else 1
                r = rv(w)
                if isinstance(x, int) and r > terms.atom_umax(x):
                    r %= terms.atom_umax(x) + 1
                store[x] = r
            return r

        for k in range(flips):
            ev = Ev(val)
            bad = [(l, v) for l, v in lits if ev.b(l) != v]
            if not bad:
                if ev.p(a) != ev.p(b):
                    return {(terms.show_atom(q) if isinstance(q, int) else str(q)[:60]): hex(v) for q, v in list(store.items())[:12]}
                at = [q for q in atoms_of(a) | atoms_of(b) if q in store]
                if not at:
                    break
                store.pop(rnd.choice(at), None)
                continue
            l, v = rnd.choice(bad)
            fixlit(ev, store, l, v, rnd, rv)
    return None


def fixlit(ev, store, l, want, rnd, rv):
    k, a, pol = l
    if not pol:
        want = not want
    if k == 'eq0':
        w = a[0]
        setval(ev, store, a, 0 if want else rv(w) | 1, rnd)
        return
    if k in ('ult', 'slt'):
        x, y = a
        w = x[0]
        vx, vy = ev.p(x), ev.p(y)
        lo, hi = 0, (1 << w) - 1
        if k == 'slt':
            vx, vy = tosigned(vx, w), tosigned(vy, w)
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1

        def near(p, q):
            if p > q:
                return None
            z = rnd.random()
            if z < 0.4:
                return rnd.choice((p, q))
            if z < 0.7:
                return min(q, p + rnd.getrandbits(rnd.randint(1, w)))
            return max(p, q - rnd.getrandbits(rnd.randint(1, w)))
        first = rnd.random() < 0.5
        for side in ((0, 1) if first else (1, 0)):
            if side == 0:
                t = near(lo, vy - 1) if want else near(vy, hi)
                if t is not None and setval(ev, store, x, t & ((1 << w) - 1), rnd):
                    return
            else:
                t = near(vx + 1, hi) if want else near(lo, vx)
                if t is not None and setval(ev, store, y, t & ((1 << w) - 1), rnd):
                    return
        return
    at = [q for q in atoms_of(l) if q in store]
    if at and k == 'op':
        store[rnd.choice(at)] = rv(64)
        return
    q = ('b', (k, a))
    if q in store:
        store[q] ^= 1


def setval(ev, store, p, target, rnd, depth=0):
    """change one unknown so that polynomial p takes the target value; False if not possible"""
    if depth > 6 or not p[2]:
        return False
    w = p[0]
    m = (1 << w) - 1
    it = list(p[2])
    rnd.shuffle(it)
    cur = ev.p(p)
    for mono, c in it:
        if len(mono) != 1:
            continue
        x = mono[0]
        old = ev.atom(x)
        if c & 1:
            new = (old + (target - cur) * pow(c, -1, 1 << w)) & m
        else:
            # even coefficient: reach the nearest value
            cs = tosigned(c, w)
            new = (old + (tosigned((target - cur) & m, w) // cs)) & m
        if setatom(ev, store, x, new, rnd, depth):
            return True
    return False


def setatom(ev, store, x, v, rnd, depth):
    d = terms.ATOMS[x]
    k = d[0]
    if k == 's' or k == 'fn':
        v &= (1 << atom_width(d)) - 1
        if v > terms.atom_umax(x):
            return False
        store[x] = v
        return True
    if k == 'zext':
        iw = d[1][0]
        if v >> iw:
            return False
        return setval(ev, store, d[1], v, rnd, depth + 1)
    if k == 'sext':
        iw = d[1][0]
        return setval(ev, store, d[1], v & ((1 << iw) - 1), rnd, depth + 1)
    if k == 'trunc':
        old = ev.p(d[1])
        return setval(ev, store, d[1], (old >> d[2] << d[2]) | v, rnd, depth + 1)
    if k == 'anf':
        if len(d[1]) == 1 and len(d[1][0][0]) == 1:
            q, msk = d[1][0][0][0], d[1][0][1]
            old = ev.p(q)
            return setval(ev, store, q, (old & ~msk) | (v & msk), rnd, depth + 1)
        return False
    if k == 'lshr' and is_const(d[2]):
        n = cval(d[2])
        old = ev.p(d[1])
        w = d[1][0]
        return setval(ev, store, d[1], ((v << n) | (old & ((1 << n) - 1))) & ((1 << w) - 1), rnd, depth + 1)
    if k == 'bool':
        return False
    if k in ('sdiv', 'udiv', 'shl', 'lshr', 'ashr'):
        return setval(ev, store, d[1], rnd.getrandbits(d[1][0]), rnd, depth + 1)
    store[x] = v
    return True


# ------------------------------------------------------------------ checking one word

class Result:
    def __init__(self, word, method):
        self.word = word
        self.method = method
        self.paths = 0
        self.ok = 0
        self.beyond = 0
        self.violations = []     # (key, text)
        self.undecided = []
        self.traps = []
        self.panics = []
        self.where = '?'


def impl_paths(W, fid, need=None, opts=(), unroll=0, recv=True, opaque=()):
    """every path of function `fid` from the states the preconditions admit: (paths, arguments, receivers)"""
    if opaque:
        sv = dict(W.opaque)
        for n in opaque:
            W.opaque[W.fid(n)] = h_call(n)
        try:
            return impl_paths(W, fid, need, opts, unroll, recv)
        finally:
            W.opaque.clear()
            W.opaque.update(sv)
    f = W.p.fns[fid]
    W.p.compile(f)
    fx = initial(W, need, opts)
    a = [W.vmref if recv is True else recv] if recv is not None else []
    k0 = len(a)
    for i in range(k0, f.nargs):
        a.append(W.I.symval('arg%d' % (i + 1 - k0), f.locals[i + 1]))
    for x in a[k0:]:
        if isinstance(x, Ref) and isinstance(x.meta, P):
            fx = fx.assume(ult(x.meta, c64(1 << 62)))
    W.I.unroll = unroll
    try:
        return W.I.run(f, a, facts=fx), a, k0
    finally:
        W.I.unroll = 0


def scratch_name(W, accessor):
    """name, as cmp_value builds it, of the place an accessor returns"""
    r = acc(W, W.I, W.newst({}, Facts()), accessor)
    nm, ty = 'vm', W.vmty
    for e in r.path:
        t = W.T.get(ty) if ty is not None else None
        nm = '%s.%s' % (nm, t['variants'][0]['fields'][e[1]][0] if isinstance(e[1], int) and t and t.get('k') == 'adt' else e[1])
        ty = e[3] if len(e) > 3 else None
    return nm


def check_word(W, word, fid, spec, need=None, opts=(), skip=(), args=None, ret=False, trap=True, cases=None, unroll=0, recv=True, opaque=()):
    """compare every path of function `fid` with the reference function"""
    if opaque:
        sv = dict(W.opaque)
        for n in opaque:
            W.opaque[W.fid(n)] = h_call(n)
        try:
            return check_word(W, word, fid, spec, need, opts, skip, args, ret, trap, cases, unroll, recv)
        finally:
            W.opaque.clear()
            W.opaque.update(sv)
    if cases:
        R = None
        for c in cases:
            c, un = c if isinstance(c, tuple) else (c, unroll)
            r = check_word(W, word, fid, spec, need, tuple(opts) + (c,), skip, args, ret, trap, None, un, recv)
            if R is None:
                R = r
            else:
                for k in ('paths', 'ok', 'beyond'):
                    setattr(R, k, getattr(R, k) + getattr(r, k))
                for k in ('violations', 'undecided', 'traps', 'panics'):
                    getattr(R, k).extend(getattr(r, k))
        return R
    skip = tuple(scratch_name(W, x) for x in skip)
    f = W.p.fns[fid]
    R = Result(word, f.base)
    R.where = W.p.span(f.file) if not isinstance(f.file, (list, tuple)) else '%s:%s' % (f.file[0], f.file[1])
    paths, a, k0 = impl_paths(W, fid, need, opts, unroll, recv)
    for st in paths:
        if st.status == 'converged':
            continue
        if st.status == 'beyond':
            R.beyond += 1
            continue
        R.paths += 1
        if st.status == 'unsup':
            R.undecided.append('path not analysable: %s' % st.why)
            continue
        W.impl = st
        try:
            specs = run_spec(W, spec, st.facts, a[k0:] if args is None else args)
        except Bound:
            R.beyond += 1
            R.paths -= 1
            continue
        except Unsup as e:
            R.undecided.append('reference not applicable: %s' % e)
            continue
        okp = True
        for b, ffx, wh, op in (st.mayovf if trap else ()):
            for sp in specs:
                w = feasible(sp.facts, b)
                if w is None:
                    R.undecided.append('overflow trap at %s not excluded' % (wh,))
                    break
                elif w:
                    R.traps.append((wh, op, w))
                    break
        for sp in specs:
            d = Diff()
            try:
                compare(W, st, sp, d, skip, f.locals[0] if ret is True else ret)
            except (Unsup, Fork) as e:
                d.unk.append(('comparison', str(e), ''))
            for q in d.bad:
                okp = False
                R.violations.append(viol_text(W, R, st, sp, q))
            for q in d.unk:
                okp = False
                R.undecided.append('%s: %s vs %s' % (q[0], str(q[1])[:120], str(q[2])[:120]))
        if okp:
            R.ok += 1
    return R


def viol_text(W, R, st, sp, q):
    cond = [show(k if v else bneg(k)) for k, v in sp.facts.lits.items()]
    base = set()
    return dict(what=q[0], got=str(q[1])[:400], want=str(q[2])[:400], witness=q[3] if len(q) > 3 else None,
                path=cond[-6:], status=st.status, why=str(st.why) if st.why else None)


def feasible(fx, b):
    """can literal b hold under the facts?  False / witness dict / None (unknown)"""
    if b is False:
        return False
    f2 = fx.assume(b) if b is not True else fx
    if f2 is None:
        return False
    if f2.infeasible():
        return False
    z = sym(('wit', 0), 64)
    w = witness(f2, z, addc(z, 1))
    return w
