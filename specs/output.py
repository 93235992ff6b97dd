"""console output words and inspection tools"""
from base import *
from core_text import SRC, out, put, textof, parse, advance, K
import models
import vm

D = 2                   # iterations of a listing or padding loop that are followed exactly


def lit(t):
    return ('lit', t.encode() if isinstance(t, str) else t)


def arg(v, kind='display', ty='isize', flags=None, width=None, prec=None):
    return ('arg', (flags, width, prec, None, None), ('fmtarg', kind, v, ty))


@word('emit', 'C25', s=1, opts=('anyerror',))
def _(s):
    c = s.pop()
    o = out(s)
    if o is not None:
        put(s, o, ('ch', zext(trunc(c, 8), 32)))


def in_ds(s, a, n):
    return s.cond(ule(s.start(), a)) and s.cond(ule(a, s.limit())) and s.cond(ule(n, sub(s.limit(), a)))


@word('type', 'C25 C01', s=2, opts=('anyerror', 'canary',))
def _(s):
    a, n = s.pops(2)
    if not in_ds(s, a, n):
        s.abort(-9)
    o = out(s)
    if o is not None:
        put(s, o, *textof(s, Ref(('raw', a), (), n, None)))


@word('type', 'C22 C10', opts=('anyerror', 'canary', 'anydepth', lambda s, A: A(ult(s.depth('s'), const(2, 8)))))
def _(s):
    """too few operands: reports the underflow and touches no memory"""
    s.pops(2)
    s.abort(-4)


def hold(s):
    return s.at('hold_buffer')


def padded(s, o, width, text):
    """text right aligned in a field"""
    h = hold(s)
    s.wr(h, Str(tuple(text)))
    n = s.strlen(s.rd(h))
    k = 0
    while True:
        if not s.cond(slt(addc(n, k), width)):
            break
        put(s, o, ('ch', const(32, 32)))
        k += 1
        if k > D:
            raise Bound()
    put(s, o, *text)


FMT = {2: 'binary', 8: 'octal', 10: 'display', 16: 'upper_hex'}


@word('.r', 'C25', s=2, unroll=D, skip=('hold_buffer',))
def _(s):
    b = s.load(addc(s.start(), 8))
    v, w = s.pops(2)
    o = out(s)
    if o is None:
        return
    kind = None
    for k in FMT:
        if s.cond(eq(b, c64(k))):
            kind = FMT[k]
            break
    if kind is None:
        s.wr(hold(s), Str(()))
        s.abort(-21)
    padded(s, o, w, [arg(v, kind)])


@word('f.r', 'C25', s=2, f=1, unroll=D, skip=('hold_buffer',))
def _(s):
    r = s.fpop()
    w, d = s.pops(2)
    o = out(s)
    if o is None:
        return
    prec = 17
    for k in range(17):
        if s.cond(eq(d, c64(k))):
            prec = k
            break
    padded(s, o, w, [arg(r, 'display', 'f64', prec=prec)])


@word('flush-output', 'C25', opts=('anyerror',))
def _(s):
    o = out(s)
    if o is None:
        return
    t = tuple(textof(s, s.rd(o)))
    if s.cond(eq(s.strlen(s.rd(o)), c64(0))):
        return
    s.ev('print', 'out', t + (lit('\n'),))
    s.wr(o, Str(()))


@word('flush-to-err', 'C25')
def _(s):
    o = out(s)
    if o is None:
        return
    s.ev('print', 'err', tuple(textof(s, s.rd(o))) + (lit('\n'),))
    s.wr(o, Str(()))


@word('.input', 'C25 C09', cases=SRC, opts=('anyerror',))
def _(s):
    ib = s.at('input_buffer')
    if not s.is_some(ib):
        return
    o = out(s)
    if o is not None:
        put(s, o, *textof(s, s.payref(ib)))


def name(s, xt):
    nfa = s.wget(xt, 'nfa')
    s.assume(ult(nfa, s.limit()))
    return textof(s, s.cstr(nfa))


@word('.word', 'C25 C09', s=1, opts=('anyerror',))
def _(s):
    xt = s.pop()
    o = out(s)
    if o is None:
        return
    if s.cond(ult(xt, s.nwords())):
        put(s, o, *(name(s, xt) + [lit(' ')]))
    else:
        put(s, o, lit('unknown '))


@word('words', 'C25 C09', unroll=D, opts=('anyerror',))
def _(s):
    o = out(s)
    if o is None:
        return
    n = s.nwords()
    k = 0
    while True:
        if not s.cond(bneg(ule(addc(n, -k), c64(1)))):
            break
        k += 1
        w = addc(n, -k)
        if not s.cond(s.wget(w, 'hidden')):
            put(s, o, *(name(s, w) + [lit(' ')]))
        if k > D:
            raise Bound()


@word('.memory', 'C25 C16', opts=('anyerror',))
def _(s):
    o = out(s)
    if o is None:
        return
    U = 'usize'
    put(s, o, lit('data space capacity: '), arg(s.fget(s.ds(), 'cap'), ty=U), lit(', used: '), arg(s.fget(s.ds(), 'len'), ty=U),
        lit(', start: 0x'), arg(s.start(), 'upper_hex', U), lit(', limit: 0x'), arg(s.limit(), 'upper_hex', U),
        lit(', here: 0x'), arg(s.here(), 'upper_hex', U), lit('\n'))


# ---------------------------------------------------------------- exception descriptions

DESC = """Aborted|Aborted|Stack overflow|Stack underflow|Return stack overflow|Return stack underflow|Do-loop nested too deeply
Dictionary overflow|Invalid memory address|Division by zero|Result out of range|Argument type mismatch|Undefined word
Interpreting a compile only word|Invalid FORGET|Attempt to use zero length string|Picture numeric output string overflow
Parsed string overflow|Definition name too long|Write to a read only location|Unsupported operation|Control structure mismatch
Address alignment exception|Invalid numeric argument|Return stack imbalance|Loop parameters unavailable|Invalid recursion
User interrupt|Compiler nesting|Obsolescent feature|>BODY used on non-CREATEd definition|Invalid name argument|Block read exception
Block write exception|Invalid block number|Invalid file position|File I/O exception|Non-existent file|Unexpected end of file
Invalid BASE for floating point conversion|Loss of precision|Floating point divided by zero|Floating point result out of range
Floating point stack overflow|Floating point stack underflow|Floating point invalid argument|Compilation word list deleted
Invalid POSTPONE|Search order overflow|Search order underflow|Compilation word list changed|Control flow stack overflow
Exception stack overflow|Floating point underflow|Floating point unidentified fault|QUIT
Exception in sending or receiving a character|[IF],[ELSE],[THEN] exception""".replace('\n', '|').split('|')


def exc_code(s, v):
    """numeric code of an exception value"""
    ty = vm.exc_type(s.W)
    return s.I.elem(s.st, v, ('f', 0, 0, s.W.T[ty]['variants'][0]['fields'][0][1]))


def describe(s, v):
    c = exc_code(s, v)
    for k, t in enumerate(DESC):
        if s.cond(eq(c, const(-1 - k, 16))):
            return t
    return ''


@word('fun:exception::description', 'C17', ret=True)
def _(s, e):
    return Str(models.norm_pieces((lit(describe(s, e)),)))


@word('.error', 'C17 C25', opts=('anyerror',))
def _(s):
    e = s.opt(s.error_ref())
    if e is None:
        return
    o = out(s)
    if o is None:
        return
    put(s, o, lit(describe(s, e)))


def position(s, o, ip):
    """name of the word containing an address"""
    r = h_find_xt(s.I, s.st, None, [None, ip], OPT(s))
    n, vi = s.variant(r, OPT(s))
    if n == 'Some':
        put(s, o, *(name(s, s.payload(r, OPT(s), vi)) + [lit(' ')]))
    else:
        put(s, o, lit('unknown('), arg(ip, 'upper_hex', 'usize', flags=ZERO), lit(') '))


ZERO = 0x61000020


def OPT(s):
    return s.W.p.fns[s.W.resolve('wl:find_xt')[0]].locals[0]


@word('.backtrace', 'C25 C09', unroll=D, opts=('anyerror',))
def _(s):
    o = out(s)
    if o is None:
        return
    put(s, o, lit('backtrace: '))
    n = s.depth('r')
    k = 0
    while s.cond(ult(const(k, 8), n)):
        if k >= D:
            raise Bound()
        position(s, o, s.rd(s.slot(const(k, 8), 'r')))
        k += 1
    xt = s.state('aborted_word_pointer')
    if s.cond(bneg(eq(xt, c64(0)))) and s.cond(ult(xt, s.nwords())):
        put(s, o, *(name(s, xt) + [lit(' ')]))
    position(s, o, s.ip)


@word('(xtime)', 'C25 C10', s=2)
def _(s):
    t0, xt = s.pops(2)
    us = udiv(s.run('system_time_ns'), c64(1000))
    t = sub(us, t0)
    if not s.cond(ult(xt, s.nwords())):
        s.abort(-24)
    m = s.wget(xt, 'min_execution_time')
    if s.cond(eq(m, c64(0))) or not s.cond(ule(m, t)):
        s.wset(xt, 'min_execution_time', t)
    m = s.wget(xt, 'max_execution_time')
    if not s.cond(ule(t, m)):
        s.wset(xt, 'max_execution_time', t)


@word('.xtime', 'C25 C09', unroll=D)
def _(s):
    o = out(s)
    if o is None:
        return
    n = s.nwords()
    k = c = 0
    while True:
        if not s.cond(bneg(ule(addc(n, -k), c64(1)))):
            break
        k += 1
        w = addc(n, -k)
        t = s.wget(w, 'min_execution_time')
        if not s.cond(eq(t, c64(0))):
            if c:
                put(s, o, lit('|'))
            c = 1
            put(s, o, *(name(s, w) + [lit('|'), arg(t, ty='usize'), lit(','), arg(s.wget(w, 'max_execution_time'), ty='usize')]))
        if k > D:
            raise Bound()


@word('0xtime', 'C25', unroll=D)
def _(s):
    n = s.nwords()
    k = 0
    while True:
        if not s.cond(bneg(ule(addc(n, -k), c64(1)))):
            break
        k += 1
        w = addc(n, -k)
        if not s.cond(eq(s.wget(w, 'min_execution_time'), c64(0))):
            s.wset(w, 'min_execution_time', c64(0))
            s.wset(w, 'max_execution_time', c64(0))
        if k > D:
            raise Bound()


# ---------------------------------------------------------------- strings in definitions

def s_quote(s):
    ib = s.at('input_buffer')
    src = s.payref(ib) if s.is_some(ib) else None
    n = s.strlen(s.rd(src)) if src is not None else c64(0)
    i = s.state('source_index')
    lo = addc(i, 1)
    if not s.cond(bneg(eq(i, c64(-1)))) or not s.cond(ule(lo, n)):
        lo = n
    r = s.sub(src, lo) if src is not None else None
    if r is None:
        text, m = Str(()), c64(0)
    else:
        t = models.str_of(s.I, s.st, r)
        m = s.st.facts.simp(r.meta)
        b = bop('has', t.p, QUOTE)
        if s.cond(b):
            pos = fn('find', (t.p, QUOTE), 64)
            s.assume(ult(pos, m))
            s.assume(bop('charb', t.p, pos))
            text = models.str_of(s.I, s.st, models.subrange(s.I, s.st, r, c64(0), pos, None, None))
            m = pos
        else:
            text = t
    xt = s.ref('idx_s_quote')
    s.assume(ult(xt, s.nwords()))
    s.comma(xt)
    s.compile_str(text)
    s.align()
    e = addc(add(lo, m), 1)
    s.set_state('source_index', e if s.cond(ule(e, n)) else n)
    if src is not None:
        pass


QUOTE = const(34, 32)


@word('s"', 'C14 C09', cases=SRC, opts=('aligned',))
def _(s):
    s_quote(s)


@word('."', 'C14 C09', cases=SRC, opts=('aligned',))
def _(s):
    s_quote(s)
    s.comma(s.ref('idx_type'))


@word('.(', 'C25 C09', cases=SRC, unroll=K)
def _(s):
    parse(s, c64(41))
    o = out(s)
    if o is not None:
        put(s, o, *textof(s, s.rd(s.token())))


def dbg(fmtf):
    def g(s, f):
        r = s.stk(fmtf)
        n = s.depth(fmtf)
        k = 0
        p = []
        while s.cond(ult(const(k, 8), n)):
            if k >= D:
                raise Bound()
            v = s.rd(s.slot(const(k, 8), fmtf))
            p += [arg(v, ty='isize') if fmtf == 's' else arg(v, ty='f64', prec=7), lit(' ')]
            k += 1
        models.append(s.I, s.st, f, p)
    return g


@word('.s', 'C25 C09', opts=('anyerror',))
def _(s):
    o = out(s)
    if o is None:
        return
    sd = bneg(eq(s.depth(), c8(0)))
    fd = bneg(eq(s.depth('f'), c8(0)))
    S, F = s.stk('s'), s.stk('f')
    if s.cond(sd):
        put(s, o, ('arg', (None,) * 5, ('fmtarg', 'debug', s.I.valname(s.rd(S)), s.W.T[S.to]['s'])))
    if s.cond(fd):
        if s.cond(sd):
            put(s, o, lit(' '))
        put(s, o, lit('F: '), ('arg', (None,) * 5, ('fmtarg', 'debug', s.I.valname(s.rd(F)), s.W.T[F.to]['s'])))


def c8(v):
    return const(v, 8)


word('dbg:isize', 'C25', unroll=D)(dbg('s'))
word('dbg:f64', 'C25', unroll=D)(dbg('f'))
