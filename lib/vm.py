"""The analysed virtual machine: places, invariants, word registry, summaries of callees.

`World` loads one MIR dump and exposes the abstract VM value; `Spec` is the reference
transfer function interface used by the word tables in /verif/specs."""
import sys
from terms import *
import terms
from facts import Facts
from interp import *
import models
from mir import Program

PAGE_SLACK = 1 << 14      # free data space assumed by words that append to it


class AnchorError(Exception):
    """something the rules are anchored to is missing from the analysed program"""


class SpecStop(Exception):
    pass


class World:
    def __init__(self, dump, vm='mock_vm::VM'):
        self.p = Program(dump)
        self.T = self.p.types
        self.vmname = vm
        c = [k for k, t in self.T.items() if t['s'] == vm or t['s'].endswith('::' + vm)]
        if not c:
            raise AnchorError('no VM type %s' % vm)
        self.vmty = c[0]
        self.vms = self.T[self.vmty]['s']
        self.methods = {}
        for (s, tr, m), i in self.p.methods.items():
            if s == self.vms:
                self.methods.setdefault(m, (tr, i))
        self.root = ('*', 'vm')
        self.opaque = {}
        self.I = Interp(self.p, models.M, self.opaque, fnptr_hook=self.indirect)
        self.I.rootty[self.root] = self.vmty
        import registry
        self.I.known_fn = lambda fv: registry.fixed_semantics(self, fv)
        self.I.W = self
        self.vmref = Ref(self.root, (), None, self.vmty)
        self._places = {}
        self.summaries()

    # ------------------------------------------------------------- lookup
    def fid(self, method):
        x = self.methods.get(method)
        if x is None:
            raise AnchorError('method %s not found on %s' % (method, self.vms))
        return x[1]

    def fn(self, method):
        return self.p.fns[self.fid(method)]

    def has(self, method):
        return method in self.methods

    def resolve(self, name):
        """(function id, receiver place) of an internal function named by a reference:
        fn: method of the machine, ds: of its data space, wl: of its dictionary,
        stk: of a stack of cells, fun: free function"""
        kind, m = name.split(':', 1)
        if kind == 'fn':
            return self.fid(m), self.vmref
        if kind == 'ds':
            r = self.place('data_space')
            i = [i for (s, tr, mm), i in self.p.methods.items() if mm == m and s == self.T[r.to]['s']]
            if not i:
                raise AnchorError('method %s not found on the data space' % m)
            return i[0], r
        if kind == 'wl':
            r = [f for f in self.p.fns if 'Wordlist::<' in f.name and f.name.endswith('%s>::%s' % (self.vms, m))]
            if not r:
                raise AnchorError('method %s not found on the dictionary' % m)
            return r[0].id, None if m == 'hash' else self.place('wordlist')
        if kind == 'stk':
            return self.named_fn('Stack::<isize>::' + m).id, self.place('s_stack')
        if kind == 'dbg':
            r = [f for f in self.p.fns if f.name.endswith('Stack<%s> as std::fmt::Debug>::fmt' % m) and not f.name.startswith('<&')]
            if not r:
                raise AnchorError('Debug of Stack<%s> not found' % m)
            return r[0].id, self.place({'isize': 's_stack', 'f64': 'f_stack'}[m])
        if kind == 'fun':
            return self.named_fn(m).id, None
        raise AnchorError(name)

    def named_fn(self, suffix, all=False):
        r = [f for f in self.p.fns if f.name == suffix or f.name.endswith('::' + suffix)]
        if not r:
            raise AnchorError('function %s not found' % suffix)
        return r if all else r[0]

    def tyname(self, s):
        for k, t in self.T.items():
            if t['s'] == s:
                return k
        for k, t in self.T.items():
            if t['s'] == s or t['s'].endswith('::' + s):
                return k
        raise AnchorError('type %s not found' % s)

    def field(self, ty, name):
        t = self.T[ty]
        for i, (n, ft) in enumerate(t['variants'][0]['fields']):
            if n == name:
                return ('f', i, 0, ft)
        raise AnchorError('field %s of %s not found' % (name, t['s']))

    def fields(self, ty):
        return [(n, i, ft) for i, (n, ft) in enumerate(self.T[ty]['variants'][0]['fields'])]

    # ------------------------------------------------------------- running
    def newst(self, heap=None, facts=None, mem=()):
        st = State()
        st.heap = dict(heap or {})
        st.facts = facts or Facts()
        st.events = []
        st.mem = mem
        st.nf = 0
        st.frames = []
        st.status = None
        st.ret = None
        st.why = None
        st.mayovf = []
        st.steps = 0
        st.memver = 0
        st.nfork = 0
        st.ghost = {}
        st.wid = ()
        return st

    def place(self, accessor, heap=None, facts=None):
        """Ref returned by an accessor method on the initial VM"""
        k = accessor
        if heap is None and k in self._places:
            return self._places[k]
        f = self.fn(accessor)
        fx = facts or self.base_facts()
        rs = [r for r in self.I.run(f, [self.vmref], heap=heap, facts=fx) if r.status == 'ret']
        if len(rs) != 1 or not isinstance(rs[0].ret, Ref):
            raise AnchorError('accessor %s does not reduce to one place: %s' % (accessor, [(r.status, r.why) for r in rs]))
        r = rs[0].ret
        if heap is None:
            self._places[k] = r
        return r

    def base_facts(self):
        fx = Facts()
        v = self.vm_field_sym('current_task')
        if v is not None:
            fx = fx.assume(ult(v, const(self.num_tasks(), 64)))
        return fx

    def vm_field_sym(self, name):
        try:
            e = self.field(self.vmty, name)
        except AnchorError:
            return None
        return self.I.symval(('fld', self.root, 0, e[1]), e[3])

    def num_tasks(self):
        try:
            e = self.field(self.vmty, 'tasks')
        except AnchorError:
            return 1
        t = self.T[e[3]]
        return t['len'] if t['k'] == 'array' else 1

    # ------------------------------------------------------------- summaries
    def summaries(self):
        for name, h in (('abort_with', h_abort), ('execute_word', h_exec), ('parse_word', h_parse_word),
                        ('find', h_find), ('define', h_define),
                        ('evaluate_integer', h_number('integer')), ('evaluate_float', h_number('float'))):
            if name in self.methods:
                self.opaque[self.fid(name)] = h
        for name, h in (('ds:compile_str', h_compile_str), ('ds:put_cstr', h_put_cstr), ('wl:hash', h_hash), ('wl:find_xt', h_find_xt)):
            try:
                self.opaque[self.resolve(name)[0]] = h
            except AnchorError:
                pass

    def indirect(self, I, st, fr, fv, args, dest):
        """call through a function pointer held in a dictionary entry"""
        nm = fv.name if isinstance(fv, Sym) else str(fv)
        extra = tuple(I.valname(a) for a in args[1:])
        I.event(st, ('ICALL', nm, extra, Snap(st)))
        havoc_vm(self, I, st)
        return UNIT

    # ------------------------------------------------------------- names
    def name_type(self, n):
        if n == self.root:
            return self.vmty
        if isinstance(n, tuple) and n and n[0] == 'fld':
            pt = self.name_type(n[1])
            if pt is None:
                return None
            t = self.T[pt]
            try:
                if t['k'] == 'adt':
                    return t['variants'][n[2]]['fields'][n[3]][1]
                if t['k'] == 'tuple':
                    return t['elems'][n[3]]
            except Exception:
                return None
        if isinstance(n, tuple) and n and n[0] == 'idx':
            pt = self.name_type(n[1])
            if pt is None:
                return None
            return self.T[pt].get('elem')
        return None

    def pretty(self, n):
        if n == self.root:
            return 'vm'
        if isinstance(n, tuple) and n and n[0] == 'fld':
            pt = self.name_type(n[1])
            nm = str(n[3])
            if pt is not None:
                t = self.T[pt]
                try:
                    if t['k'] == 'adt':
                        nm = t['variants'][n[2]]['fields'][n[3]][0]
                except Exception:
                    pass
            return '%s.%s' % (self.pretty(n[1]), nm)
        if isinstance(n, tuple) and n and n[0] == 'idx':
            return '%s[%s]' % (self.pretty(n[1]), show(n[2]) if isinstance(n[2], tuple) else n[2])
        if isinstance(n, tuple) and not isinstance(n, (P, B)):
            return '(' + ','.join(self.pretty(e) if isinstance(e, tuple) and not isinstance(e, (P, B)) else show(e) for e in n) + ')'
        return show(n) if isinstance(n, tuple) else str(n)

    def install_pretty(self):
        terms.show_name = self.pretty


# ---------------------------------------------------------------- state helpers

def set_field(W, I, st, ref, name, val):
    e = W.field(ref.to, name)
    I.write(st, ref.root, ref.path + (e,), val, e[3])


def get_field(W, I, st, ref, name):
    e = W.field(ref.to, name)
    return I.read(st, ref.root, ref.path + (e,), e[3])


def acc(W, I, st, accessor):
    """place of an accessor in the current state (re-evaluated on the current heap)"""
    f = W.fn(accessor)
    rs = [r for r in I.run(f, [W.vmref], heap={W.root: st.heap[W.root]} if W.root in st.heap else {}, facts=st.facts)]
    ok = [r for r in rs if r.status == 'ret']
    if len(ok) == 1 and len(rs) == 1:
        return ok[0].ret
    bad = [r for r in rs if r.status != 'ret']
    if bad:
        raise Unsup('accessor %s: %s' % (accessor, bad[0].why))
    # accessor depends on an undecided condition: split the caller on it
    for r in ok:
        for b, v in r.facts.lits.items():
            if st.facts.decide(b) is None:
                raise Fork(b)
    raise Unsup('accessor %s is ambiguous' % accessor)


INVARIANT_FIELDS = ('inner', 'cap', 'layout')


class Snap:
    """the machine at the moment control leaves the analysed function"""
    def __init__(self, st):
        self.heap, self.mem = dict(st.heap), tuple(st.mem)


def havoc_vm(W, I, st):
    """after running arbitrary words: everything may change except what no word changes"""
    st.nf += 1
    n = sum(1 for e in st.events if e[0][0] in ('EXEC', 'ICALL', 'ABORT', 'CALL'))
    old = st.heap.get(W.root, Sym(W.root, W.vmty))
    nm = ('post', n)
    ds = W.place('data_space')
    new = Sym(nm, W.vmty)
    st.heap[W.root] = new
    hv = {W.root: old}
    tmp = W.newst(hv, st.facts)
    for f in ('inner', 'cap'):
        try:
            e = W.field(ds.to, f)
        except AnchorError:
            continue
        v = I.read(tmp, ds.root, ds.path + (e,), e[3])
        I.write(st, ds.root, ds.path + (e,), v, e[3])
    cur = W.vm_field_sym('current_task')
    if cur is not None:
        e = W.field(W.vmty, 'current_task')
        v = I.read(st, W.root, (e,), e[3])
        f = st.facts.assume(ult(v, const(W.num_tasks(), 64)))
        if f is not None:
            st.facts = f
    st.mem = st.mem + (('havoc', nm),)


def h_abort(I, st, f, a, dty):
    W = I.W
    I.event(st, ('ABORT', a[1]))
    ety = None
    # last_error becomes Some(code)
    le = error_place(W, I)
    if le is not None:
        I.write(st, le.root, le.path, Ag(le.to, models.variant_idx(I, le.to, 'Some'), {0: a[1]}), le.to)
    ev = st.events[-1]
    st.events[-1] = (ev[0] + (dict(st.heap), st.mem),) + ev[1:]
    return UNIT


def error_place(W, I):
    """place holding the pending exception, found by what set_error writes"""
    if not hasattr(W, '_errplace'):
        W._errplace = None
        f = W.fn('set_error')
        oty = W.p.fns[f.id].locals[2]
        v = Sym(('probe',), oty)
        rs = [r for r in I.run(f, [W.vmref, v], facts=W.base_facts()) if r.status == 'ret']
        if len(rs) == 1:
            h = rs[0].heap.get(W.root)
            p = find_value(h, v)
            if p is not None:
                path = []
                ty = W.vmty
                for i in p:
                    fld = W.T[ty]['variants'][0]['fields'][i]
                    path.append(('f', i, 0, fld[1]))
                    ty = fld[1]
                W._errplace = Ref(W.root, tuple(path), None, oty)
    return W._errplace


def find_value(h, v, path=()):
    if h == v:
        return path
    if isinstance(h, Ag):
        for k, x in h.f.items():
            if isinstance(k, int):
                r = find_value(x, v, path + (k,))
                if r is not None:
                    return r
    return None


def h_exec(I, st, f, a, dty):
    I.event(st, ('EXEC', a[1], Snap(st)))
    havoc_vm(I.W, I, st)
    return UNIT


def h_call(name):
    """a callee decided by its own reference; here only that it is called, when, and in which state"""
    def h(I, st, f, a, dty):
        I.event(st, ('CALL', name, tuple(I.valname(x) for x in a[1:]), Snap(st)))
        havoc_vm(I.W, I, st)
        return UNIT
    return h


def opt_some_payload(I, st, ref):
    """payload place of Option place known to be Some"""
    ty = ref.to
    vi = models.variant_idx(I, ty, 'Some')
    fty = I.T[ty]['variants'][vi]['fields'][0][1]
    return Ref(ref.root, ref.path + (('f', 0, vi, fty),), None, fty)


def h_parse_word(I, st, f, a, dty):
    """summary proved separately: reads a white-space delimited token of the input buffer into
    the token buffer and advances the source index; everything else unchanged"""
    W = I.W
    lt = acc(W, I, st, 'last_token')
    v = I.read(st, lt.root, lt.path, lt.to)
    k = I.variant_of(st, v, lt.to)
    if W.T[lt.to]['variants'][k]['name'] != 'Some':
        raise PanicPath('expect', 'token buffer missing')
    n = sum(1 for e in st.events if e[0][0] == 'PARSE')
    I.event(st, ('PARSE', n))
    p = opt_some_payload(I, st, lt)
    I.write(st, lt.root, lt.path, Ag(lt.to, models.variant_idx(I, lt.to, 'Some'), {0: Str((('tok', n),))}), lt.to)
    s = acc(W, I, st, 'state')
    e = W.field(s.to, 'source_index')
    I.write(st, s.root, s.path + (e,), sym(('srcidx', n), 64), e[3])
    return UNIT


def ds_parts(W, I, st):
    ds = acc(W, I, st, 'data_space')
    le, ce, ie = (W.field(ds.to, n) for n in ('len', 'cap', 'inner'))
    start = I.ptr_int(st, I.read(st, ds.root, ds.path + (ie,), ie[3]))
    cap = I.read(st, ds.root, ds.path + (ce,), ce[3])
    ln = I.read(st, ds.root, ds.path + (le,), le[3])
    return ds, start, cap, ln


def put_bytes(I, st, addr, s, n):
    if is_const(n) and cval(n) == 0:
        return
    I.event(st, ('store', addr, n, s))
    st.mem = st.mem + (('bytes', st.facts.simp(addr), n, models.merge_chars(s.p)),)


def h_hash(I, st, f, a, dty):
    """summary proved separately: a function of the bytes of the name that ignores case"""
    s = a[0] if isinstance(a[0], Str) else models.str_of(I, st, a[0])
    p = models.merge_chars(s.p)
    if len(p) == 1 and p[0][0] == 'lower':
        p = p[0][1]
    return fn('hash', (p,), 32)


def h_find_xt(I, st, f, a, dty):
    """summary proved separately: the last word whose name starts at or before the address"""
    v = st.facts.simp(a[1])
    n = words_len(I.W, I, st)
    if I.decide(st, bop('hasxt', v)):
        xt = fn('xtof', (v,), 64)
        fx = st.facts.assume(ult(xt, n))
        if fx is None:
            raise Dead()
        st.facts = fx
        return models.some(I, dty, xt)
    return models.none(I, dty)


def h_number(kind):
    """summary proved separately: converts the text, then pushes or compiles the value, or sets an error"""
    def h(I, st, f, a, dty):
        W = I.W
        s = models.str_of(I, st, a[1])
        I.event(st, ('NUMBER', kind, models.merge_chars(s.p)))
        n = sum(1 for e in st.events if e[0][0] == 'NUMBER')
        le = error_place(W, I)
        if I.decide(st, bop('number', kind, s.p)):
            for k in ('s_stack', 'f_stack', 'data_space'):
                pass
        else:
            I.write(st, le.root, le.path, Ag(le.to, models.variant_idx(I, le.to, 'Some'), {0: exc_sym(W, ('numerr', kind, n))}), le.to)
        return UNIT
    return h


def exc_sym(W, name):
    return W.I.symval(name, exc_type(W))


def h_compile_str(I, st, f, a, dty):
    """summary proved separately: length cell, then the bytes, at the end of the data space"""
    W = I.W
    s = models.str_of(I, st, a[1])
    n = models.strlen(I, st, s)
    ds, start, cap, ln = ds_parts(W, I, st)
    h = st.facts.simp(add(start, ln))
    for b in (ule(n, const(PAGE_SLACK // 2, 64)),):
        fx = st.facts.assume(b)
        if fx is None:
            raise Dead()
        st.facts = fx
    if not I.decide(st, ule(add(add(ln, n), const(8, 64)), cap)):
        raise PanicPath('panic', 'data space is full')
    u = [k for k, t in W.T.items() if t.get('n') == 'Usize' and t.get('k') == 'uint'][0]
    I.raw_write(st, h, u, n)
    put_bytes(I, st, addc(h, 8), s, n)
    le = W.field(ds.to, 'len')
    I.write(st, ds.root, ds.path + (le,), addc(add(ln, n), 8), le[3])
    return h


def h_put_cstr(I, st, f, a, dty):
    """summary proved separately: length byte and at most 255 bytes of the string"""
    W = I.W
    s = models.str_of(I, st, a[1])
    n = models.strlen(I, st, s)
    ds, start, cap, ln = ds_parts(W, I, st)
    if not I.decide(st, ult(n, const(256, 64))):
        s = Str((('sub', s, const(0, 64), const(255, 64)),))
        n = const(255, 64)
    if not I.decide(st, ule(add(add(a[2], n), const(8, 64)), add(start, cap))):
        raise PanicPath('panic', 'data space is full')
    u = [k for k, t in W.T.items() if t.get('n') == 'U8' and t.get('k') == 'uint'][0]
    I.raw_write(st, a[2], u, trunc(n, 8))
    put_bytes(I, st, addc(a[2], 1), s, n)
    return UNIT


def h_find(I, st, f, a, dty):
    W = I.W
    s = models.str_of(I, st, a[1])
    nexec = sum(1 for e in st.events if e[0][0] in ('EXEC', 'ICALL', 'DEFINE', 'CALL'))
    b = bsym(('found', s.p, nexec))
    r = I.decide(st, b)
    vt = dty
    if r:
        xt = sym(('xt', s.p, nexec), 64)
        wl = acc(W, I, st, 'wordlist')
        n = words_len(W, I, st)
        fx = st.facts.assume(bneg(eq(xt, const(0, 64))))
        fx = fx.assume(ult(xt, n)) if fx is not None else None
        if fx is None:
            raise Dead()
        st.facts = fx
        return models.some(I, vt, xt)
    return models.none(I, vt)


def words_len(W, I, st):
    wl = acc(W, I, st, 'wordlist')
    e = W.field(wl.to, 'words')
    return models.vec_len(I, st, Ref(wl.root, wl.path + (e,), None, e[3]))


def h_define(I, st, f, a, dty):
    """summary of define: parse a name; missing name raises; otherwise a new last word"""
    W = I.W
    h_parse_word(I, st, f, a[:1], dty)
    n = sum(1 for e in st.events if e[0][0] in ('DEFINE',))
    empty = bsym(('tokempty', n))
    if I.decide(st, empty):
        h_abort(I, st, f, [a[0], const_exc(W, 'UNEXPECTED_END_OF_FILE')], dty)
        return UNIT
    act = I.valname(a[1])
    sem = I.valname(a[2])
    I.event(st, ('DEFINE', act, sem))
    wl = acc(W, I, st, 'wordlist')
    e = W.field(wl.to, 'words')
    vr = Ref(wl.root, wl.path + (e,), None, e[3])
    ln = models.vec_len(I, st, vr)
    el = W.field(wl.to, 'last')
    I.write(st, wl.root, wl.path + (el,), ln, el[3])
    # the new entry is a fresh word; buckets of its hash chain now start with it
    bk = W.field(wl.to, 'buckets')
    I.write(st, wl.root, wl.path + (bk,), Sym(('defbuckets', n), bk[3]), bk[3])
    v = I.read(st, wl.root, wl.path + (e,), e[3])
    I.write(st, wl.root, wl.path + (e,), Sym(('defwords', n), e[3]), e[3])
    fx = st.facts.assume(eq(models.vec_len(I, st, vr), addc(ln, 1)))
    if fx is None:
        raise Dead()
    st.facts = fx
    ds = acc(W, I, st, 'data_space')
    le = W.field(ds.to, 'len')
    nl = sym(('deflen', n), 64)
    old = I.read(st, ds.root, ds.path + (le,), le[3])
    ce = W.field(ds.to, 'cap')
    cap = I.read(st, ds.root, ds.path + (ce,), ce[3])
    for b in (ult(old, nl), ule(nl, addc(cap, -PAGE_SLACK // 2)), eq(band(nl, const(7, 64)), const(0, 64))):
        fx = st.facts.assume(b)
        if fx is None:
            raise Dead()
        st.facts = fx
    I.write(st, ds.root, ds.path + (le,), nl, le[3])
    st.mem = st.mem + (('defmem', n),)
    return UNIT


def const_exc(W, name):
    """value of an exception constant (enum or integer, as the code has it)"""
    if not hasattr(W, '_exc'):
        W._exc = {}
    return W._exc_const(name) if hasattr(W, '_exc_const') else exc_value(W, ANS[name])


ANS = dict(
    ABORT=-1, ABORT_QUOTE=-2, STACK_OVERFLOW=-3, STACK_UNDERFLOW=-4, RETURN_STACK_OVERFLOW=-5,
    RETURN_STACK_UNDERFLOW=-6, DO_LOOPS_NESTED_TOO_DEEPLY=-7, DICTIONARY_OVERFLOW=-8,
    INVALID_MEMORY_ADDRESS=-9, DIVISION_BY_ZERO=-10, RESULT_OUT_OF_RANGE=-11,
    ARGUMENT_TYPE_MISMATCH=-12, UNDEFINED_WORD=-13, INTERPRETING_A_COMPILE_ONLY_WORD=-14,
    UNSUPPORTED_OPERATION=-21, CONTROL_STRUCTURE_MISMATCH=-22, INVALID_NUMERIC_ARGUMENT=-24,
    UNEXPECTED_END_OF_FILE=-39, FLOATING_POINT_STACK_OVERFLOW=-44, FLOATING_POINT_STACK_UNDERFLOW=-45,
)


def exc_value(W, code):
    t = W.T[exc_type(W)]
    if t['k'] == 'adt':
        # newtype struct around an integer
        ft = t['variants'][0]['fields'][0][1]
        return Ag(exc_type(W), 0, {0: const(code, W.I.scalar(ft)[1])})
    return const(code, 64)


def exc_type(W):
    f = W.fn('abort_with')
    return f.locals[2]
