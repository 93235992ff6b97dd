"""data space primitives and the dictionary record"""
from base import *

K = 2


def room(s, n):
    return ule(add(s.fget(s.ds(), 'len'), n), s.fget(s.ds(), 'cap'))


@word('ds:here', 'C16', ret=True)
def _(s):
    return s.here()


def cell(nm, kind, width, **kw):
    @word('ds:' + nm, 'C16 C01', opts=('nospace',), **kw)
    def _(s, v):
        """appends exactly when all of it fits, otherwise stores nothing"""
        h = s.here()
        if not s.cond(room(s, c64(width))):
            raise PanicPath('panic', 'full')
        s.store(h, v, kind)
        s.set_here(addc(h, width))


cell('compile_usize', 'Usize', 8)
cell('compile_isize', 'Isize', 8)
cell('compile_f64', 'F64', 8)
cell('compile_u8', 'U8', 1, optional=True)


def bytes_of(s, ref, n):
    """copy loop: at most K bytes are followed"""
    if s.cond(ult(c64(K), n)):
        raise Bound()


@word('ds:compile_str', 'C16 C01', opts=('nospace',), unroll=K, ret=True)
def _(s, v):
    n = s.strlen(v)
    h = s.here()
    if not s.cond(room(s, addc(n, 8))):
        raise PanicPath('panic', 'full')
    bytes_of(s, v, n)
    s.store(h, n, 'Usize')
    s.put_str(addc(h, 8), v)
    s.set_here(addc(add(h, n), 8))
    return h


@word('ds:put_cstr', 'C16 C01', opts=('nospace',), unroll=K)
def _(s, v, pos):
    s.assume(ule(s.start(), pos))
    s.assume(ule(pos, s.limit()))
    n = s.strlen(v)
    if s.cond(ult(c64(255), n)):
        raise Bound()
    if not s.cond(ule(addc(add(pos, n), 8), s.limit())):
        raise PanicPath('panic', 'full')
    bytes_of(s, v, n)
    s.store(pos, trunc(n, 8), 'U8')
    s.put_str(addc(pos, 1), v)


# ---------------------------------------------------------------- dictionary record

@word('wl:hash', 'C14', unroll=K, ret=True)
def _(s, name):
    """djb2 over the lower-cased bytes"""
    n = s.strlen(name)
    h = const(5381, 32)
    b, off = models.sub_base(models.str_of(s.I, s.st, name))
    for k in range(K + 1):
        if not s.cond(ult(c64(k), n)):
            return h
        if k == K:
            raise Bound()
        c = fn('byte', (b, addc(off, k)), 8)
        if s.cond(ule(const(65, 8), c)) and s.cond(ule(c, const(90, 8))):
            c = bor(c, const(32, 8))
        h = add(mulc(h, 33), zext(c, 32))


def bucket(s, wl, h):
    return s.aref(s.fref(wl, 'buckets'), band(zext(h, 64), c64(63)))


@word('wl:push', 'C14 C15', ret=True)
def _(s, name, w):
    wl_push(s, name, w)


def wl_push(s, name, w):
    wl = s.at('wordlist')
    words = s.fref(wl, 'words')
    h = s.hash(name)
    n = s.nwords()
    b = bucket(s, wl, h)
    wt = s.elem_ty(words)
    old = s.rd(b)
    fs = {}
    for nm, i, ft in s.W.fields(wt):
        fs[nm] = s.I.elem(s.st, w, ('f', i, 0, ft))
    fs['hash'] = h
    fs['link'] = old
    s.fset(wl, 'last', n)
    s.wr(b, n)
    s.vpush(words, s.struct(wt, **fs))


def chain_ok(s, x):
    """a linked entry exists and its name lies in the data space"""
    s.assume(ult(x, s.nwords()))
    s.assume(ule(s.start(), s.wget(x, 'nfa')))
    s.assume(ule(s.wget(x, 'nfa'), addc(s.limit(), -8)))


@word('fn:find', 'C14', unroll=K + 1, ret=True)
def _(s, name):
    fty = s.W.fn('find').locals[0]
    wl = s.at('wordlist')
    h = s.hash(name)
    x = s.rd(bucket(s, wl, h))
    for k in range(K + 2):
        if s.cond(eq(x, c64(0))):
            return models.none(s.I, fty)
        chain_ok(s, x)
        if not s.cond(s.wget(x, 'hidden')):
            if s.cond(eq(s.wget(x, 'hash'), h)):
                if s.cond(s.eqci(s.cstr(s.wget(x, 'nfa')), name)):
                    return models.some(s.I, fty, x)
        x = s.wget(x, 'link')
    raise Bound()


@word('fn:define', 'C14', opts=('aligned',))
def _(s, action, comp):
    from core_comp import find_token
    s.call('parse_word')
    tok = s.token()
    s.wr(tok, Str((('lower', s.rd(tok).p),)))
    if find_token(s) is not None:
        o = s.at('output_buffer')
        if s.is_some(o):
            r = s.payref(o)
            models.append(s.I, s.st, r, [('lit', b'Redefining ')] + list(s.rd(tok).p))
    if s.cond(eq(s.strlen(s.rd(tok)), c64(0))):
        s.abort(-39)
    nfa = s.compile_str(s.rd(tok))
    s.align()
    z = c64(0)
    wl_push(s, s.rd(tok), s.struct('core::Word<%s>' % s.W.vms, is_immediate=False, is_compile_only=False, hidden=False, link=z,
                                   hash=const(0, 32), nfa=nfa, dfa=s.here(), doer=z, action=action, compilation_semantics=comp,
                                   min_execution_time=z, max_execution_time=z))


@word('wl:find_xt', 'C25', ret=True, unroll=2)
def _(s, addr):
    """the last word whose name starts at or before the address"""
    W, I, st = s.W, s.I, s.st
    oty = W.p.fns[W.resolve('wl:find_xt')[0]].locals[0]
    n = s.nwords()
    b = [k for k in st.facts.lits if 'bsearch' in str(k)]
    i = sym((('bsearch', BS(s)), 'ix'), 64)
    if s.cond(bop('bsearch', ('bsearch', BS(s)))):
        if s.cond(eq(s.wget(i, 'nfa'), addr)):
            return models.some(I, oty, i)
    else:
        k = addc(i, -1)
        lo = s.cond(eq(i, c64(0))) or s.cond(ult(s.wget(k, 'nfa'), addr))
        hi = s.cond(bneg(ult(i, n))) or s.cond(ult(addr, s.wget(i, 'nfa')))
        if lo and hi:
            return models.none(I, oty) if s.cond(eq(i, c64(0))) else models.some(I, oty, k)
    return models.some(I, oty, sym('not the containing word', 64))


def BS(s):
    wl = s.at('wordlist')
    e = s.W.field(wl.to, 'words')
    return str(wl.path + (e, ('g', 'elems')))


def new_word(s, name, action, comp, imm=False, co=False):
    nfa = s.compile_str(name)
    s.align()
    z = c64(0)
    wl_push(s, name, s.struct('core::Word<%s>' % s.W.vms, is_immediate=imm, is_compile_only=co, hidden=False, link=z,
                              hash=const(0, 32), nfa=nfa, dfa=s.here(), doer=z, action=action, compilation_semantics=comp,
                              min_execution_time=z, max_execution_time=z))


def adds(nm, imm, co):
    @word('fn:' + nm, 'C14', opts=('aligned',), optional=True)
    def _(s, name, action):
        """a dictionary record with exactly these flags"""
        new_word(s, name, action, FnV(s.W.fid('compile_word')), imm, co)


adds('add_primitive', False, False)
adds('add_immediate', True, False)
adds('add_compile_only', False, True)
adds('add_immediate_and_compile_only', True, True)
