"""inner interpreter, counted loops, threaded code"""
from base import *

CELL = 8


def in_code(s, A):
    """the instruction pointer points into the data space (operand cells exist)"""
    A(ult(s.start(), s.ip))
    A(ule(s.ip, addc(s.limit(), -64)))
    A(eq(band(s.ip, c64(7)), c64(0)))


# ---------------------------------------------------------------- C07 threaded code

@word('lit', 'C07', opts=(in_code,))
def _(s):
    s.push(s.load(s.ip))
    s.ip = addc(s.ip, CELL)


@word('flit', 'C07', opts=(in_code,))
def _(s):
    a = align_up(s.ip, 8)
    s.fpush(s.load(a, 'F64'))
    s.ip = addc(a, CELL)


def sq_pre(s, A):
    n = s.load(s.ip)
    A(ule(n, c64(4096)))
    A(ule(s.ip, addc(s.limit(), -8192)))


@word('_s"', 'C07', opts=(in_code, sq_pre))
def _(s):
    n = s.load(s.ip)
    s.push(addc(s.ip, CELL))
    s.push(n)
    s.ip = align_up(add(addc(s.ip, CELL), n), 8)


@word('branch', 'C07 C06', opts=(in_code,))
def _(s):
    s.ip = s.load(s.ip)


@word('0branch', 'C07 C06', s=1, opts=(in_code,))
def _(s):
    f = s.pop()
    if s.cond(eq(f, c64(0))):
        s.ip = s.load(s.ip)
    else:
        s.ip = addc(s.ip, CELL)


@word('fn:nest', 'C07', opts=('wp',))
def _(s):
    s.rpush(s.ip)
    s.ip = s.wget(s.state('word_pointer'), 'dfa')


@word('exit', 'C07', r=1)
def _(s):
    s.ip = s.rpop()


@word('fn:p_var', 'C07', opts=('wp',))
def _(s):
    s.push(s.wget(s.state('word_pointer'), 'dfa'))


def dfa_pre(s, A):
    d = s.wget(s.state('word_pointer'), 'dfa')
    A(ule(s.start(), d))
    A(ule(d, addc(s.limit(), -1024)))


@word('fn:p_const', 'C07', opts=('wp', dfa_pre))
def _(s):
    s.push(s.load(s.wget(s.state('word_pointer'), 'dfa')))


@word('fn:p_fconst', 'C07 C19', opts=('wp', dfa_pre))
def _(s):
    s.fpush(s.load(align_up(s.wget(s.state('word_pointer'), 'dfa'), 8), 'F64'))


@word('fn:xdoes', 'C07', opts=('wp',))
def _(s):
    wp = s.state('word_pointer')
    s.push(s.wget(wp, 'dfa'))
    s.rpush(s.ip)
    s.ip = s.wget(wp, 'doer')


def exec_ref(s, xt):
    s.set_state('word_pointer', xt)
    if s.cond(ult(xt, s.nwords())):
        s.icall(s.wget(xt, 'action'))
    else:
        s.abort(-21)


@word('fn:execute_word', 'C07', opts=('anyerror',))
def _(s, xt):
    exec_ref(s, xt)


@word('execute', 'C07', s=1, opts=('anyerror',))
def _(s):
    s.exec(s.pop())


simple('bye', 'C07', lambda s: setattr(s, 'ip', c64(0)))


@word('fn:forth', 'C07', ret=True)
def _(s):
    ip = s.ip
    if s.cond(ule(s.start(), ip)) and s.cond(ule(ip, s.limit())) and s.cond(ule(c64(CELL), sub(s.limit(), ip))):
        s.ip = addc(ip, CELL)
        s.exec(s.load(ip))
        return True
    return False


# ---------------------------------------------------------------- C05 counted loops
# loop-sys on the return stack: address of the leave cell, limit - MIN, index - limit + MIN

MIN = c64(1 << 63)


def enter(s, limit, index):
    s.rpush(s.ip)
    s.ip = addc(s.ip, CELL)
    rt = sub(add(MIN, index), limit)
    s.rpush(sub(index, rt))
    s.rpush(rt)


@word('_do', 'C05', s=2, opts=(in_code,))
def _(s):
    limit, index = s.pops(2)
    enter(s, limit, index)


@word('_qdo', 'C05', s=2, opts=(in_code,))
def _(s):
    limit, index = s.pops(2)
    if s.cond(eq(limit, index)):
        s.ip = s.load(s.ip)
    else:
        enter(s, limit, index)


def step(s, inc):
    rt = s.get(1, 'r')
    if s.cond(terms.sat_overflow('Add', True, rt, inc)):
        s.pops(3, 'r')
        s.ip = addc(s.ip, CELL)
    else:
        s.put(1, add(rt, inc), 'r')
        s.ip = s.load(s.ip)


@word('_loop', 'C05', r=3, opts=(in_code,))
def _(s):
    step(s, c64(1))


@word('_+loop', 'C05', s=1, r=3, opts=(in_code,))
def _(s):
    step(s, s.pop())


@word('unloop', 'C05', r=3)
def _(s):
    s.pops(3, 'r')


def leave_pre(s, A):
    a = s.get(3, 'r')
    A(ult(s.start(), a))
    A(ule(a, addc(s.limit(), -8)))


@word('leave', 'C05', r=3, opts=('canary', leave_pre))
def _(s):
    a, _, _ = s.pops(3, 'r')
    s.ip = s.load(a)


@word('i', 'C05', r=2)
def _(s):
    s.push(add(s.get(1, 'r'), s.get(2, 'r')))


@word('j', 'C05', r=5)
def _(s):
    s.push(add(s.get(4, 'r'), s.get(5, 'r')))


@word('leave', 'C22 C10', opts=('canary', 'anydepth', lambda s, A: A(ult(s.depth('r'), const(3, 8)))))
def _(s):
    """no loop parameters: reports the underflow and jumps nowhere"""
    s.pops(3, 'r')
    s.abort(-6)
