"""compile-time words: control structures, literals, defining words, allocation"""
from base import *

CM = -22


def op(s, name):
    s.comma(s.ref(name))


def zbranch(s, dest):
    op(s, 'idx_zero_branch')
    s.comma(dest)


def branch(s, dest):
    op(s, 'idx_branch')
    s.comma(dest)


def patchable(s, p):
    """a recorded branch position lies in code compiled before now"""
    s.assume(ule(addc(s.start(), 64), p))
    s.assume(ule(p, s.here()))
    s.assume(eq(band(p, c64(7)), c64(0)))


def resolve(s, p):
    s.store(addc(p, -8), s.here())


CA = ('canary', 'aligned')


def cpop(s, *names):
    n, f = s.cpop()
    if n not in names:
        s.abort(CM)
    for p in f:
        patchable(s, p)
    return n, f


@word('if', 'C06', opts=CA)
def _(s):
    zbranch(s, c64(0))
    s.cpush('If', s.here())


@word('else', 'C06', opts=CA)
def _(s):
    n, (p,) = cpop(s, 'If')
    branch(s, c64(0))
    s.cpush('Else', s.here())
    resolve(s, p)


@word('then', 'C06', opts=CA)
def _(s):
    n, (p,) = cpop(s, 'If', 'Else')
    resolve(s, p)


@word('case', 'C06', opts=CA)
def _(s):
    s.cpush('Case')


@word('of', 'C06', opts=CA)
def _(s):
    n, f = cpop(s, 'Case', 'Endof')
    s.cpush(n, *f)
    op(s, 'idx_over')
    op(s, 'idx_equal')
    zbranch(s, c64(0))
    s.cpush('Of', s.here())
    op(s, 'idx_drop')


@word('endof', 'C06', opts=CA)
def _(s):
    n, (p,) = cpop(s, 'Of')
    branch(s, c64(0))
    s.cpush('Endof', s.here())
    resolve(s, p)


@word('begin', 'C06', opts=CA)
def _(s):
    s.cpush('Begin', s.here())


@word('while', 'C06', opts=CA)
def _(s):
    zbranch(s, c64(0))
    s.cpush('While', s.here())


@word('repeat', 'C06', opts=CA)
def _(s):
    n, (w,) = cpop(s, 'While')
    n, (b,) = cpop(s, 'Begin')
    branch(s, b)
    resolve(s, w)


@word('until', 'C06', opts=CA)
def _(s):
    n, (b,) = cpop(s, 'Begin')
    zbranch(s, b)


@word('again', 'C06', opts=CA)
def _(s):
    n, (b,) = cpop(s, 'Begin')
    branch(s, b)


@word('do', 'C06 C05', opts=CA)
def _(s):
    op(s, 'idx_do')
    s.comma(c64(0))
    s.cpush('Do', s.here(), s.here())


@word('?do', 'C06 C05', opts=CA)
def _(s):
    op(s, 'idx_qdo')
    s.comma(c64(0))
    s.cpush('Do', s.here(), s.here())


def loop_(name):
    def g(s):
        n, (d, _) = cpop(s, 'Do')
        op(s, name)
        s.comma(d)
        resolve(s, d)
    return g


simple('loop', 'C06 C05', loop_('idx_loop'), opts=CA)
simple('+loop', 'C06 C05', loop_('idx_plus_loop'), opts=CA)


def have_words(s, A):
    A(bneg(ult(s.nwords(), c64(256))))
    A(eq(s.last(), addc(s.nwords(), -1)))


@word('recurse', 'C06 C14', opts=('aligned', have_words))
def _(s):
    s.comma(s.last())


@word('does>', 'C06 C14', opts=('aligned',))
def _(s):
    op(s, 'idx__does')
    op(s, 'idx_exit')


def ip_pre(s, A):
    A(ult(s.start(), s.ip))
    A(ule(s.ip, addc(s.limit(), -64)))


@word('_does', 'C07 C14', opts=('aligned', have_words, ip_pre))
def _(s):
    d = addc(s.ip, 8)
    s.comma(d)
    x = s.last()
    s.wset(x, 'action', FnV(s.W.fid('xdoes')))
    s.wset(x, 'doer', d)


# ---------------------------------------------------------------- C16 allocation

@word('here', 'C16')
def _(s):
    s.push(s.here())


@word(['compile,', ','], 'C16', s=1, opts=('aligned',))
def _(s):
    s.comma(s.pop())


@word('align', 'C16')
def _(s):
    s.align()


@word('falign', 'C16')
def _(s):
    s.align(8)


def allot_pre(s, A):
    pass


@word('allot', 'C16', s=1)
def _(s):
    n = s.pop()
    h = add(s.here(), n)
    # a position outside the data space is refused, `here` then stays where it was
    if s.cond(ule(s.start(), h)) and s.cond(ule(h, s.limit())):
        s.set_here(h)


@word('fn:compile_integer', 'C14', opts=('aligned',))
def _(s, v):
    op(s, 'idx_lit')
    s.comma(v)


@word('fn:compile_float', 'C14', opts=('aligned',))
def _(s, v):
    op(s, 'idx_flit')
    s.align(8)
    s.comma(v, 'F64')


@word(['fn:compile_word', 'fn:compile_nest', 'fn:compile_var', 'fn:compile_const', 'fn:compile_unmark', 'fn:compile_fconst'],
      'C14', opts=('aligned',))
def _(s, xt):
    s.comma(xt)


# ---------------------------------------------------------------- C14 defining words

@word('[', 'C14')
def _(s):
    s.set_state('is_compiling', False)


@word(']', 'C14')
def _(s):
    s.set_state('is_compiling', True)


@word('compiling?', 'C14')
def _(s):
    s.flag(s.state('is_compiling'))


@word('immediate', 'C14', opts=(have_words,))
def _(s):
    s.wset(s.last(), 'is_immediate', True)


@word('compile-only', 'C14', opts=(have_words,))
def _(s):
    s.wset(s.last(), 'is_compile_only', True)


def define(s, act, sem):
    s.call('define', FnV(s.W.fid(act)), FnV(s.W.fid(sem)))
    if s.opt(Ref_error(s)) is not None:
        s.stop()


def Ref_error(s):
    return error_place(s.W, s.I)


@word(':', 'C14 C10')
def _(s):
    define(s, 'nest', 'compile_nest')
    s.wset(s.last(), 'hidden', True)
    s.set_state('is_compiling', True)


@word('create', 'C14 C10')
def _(s):
    define(s, 'p_var', 'compile_var')


@word('constant', 'C14 C10', s=1)
def _(s):
    v = s.pop()
    define(s, 'p_const', 'compile_const')
    s.comma(v)


@word('fconstant', 'C14 C10 C19', f=1)
def _(s):
    v = s.fpop()
    define(s, 'p_fconst', 'compile_fconst')
    s.align(8)
    s.comma(v, 'F64')


def ctoken(s):
    return s.opt(s.at('last_token'))


def tok_empty(s):
    """token buffer empty?"""
    t = ctoken(s)
    return eq(models.strlen(s.I, s.st, models.str_of(s.I, s.st, t)), c64(0))


def parse_find(s):
    s.call('parse_word')
    if s.cond(tok_empty(s)):
        s.abort(-39)
    return find_token(s, -13)


def find_token(s, code=None):
    r = s.at('last_token')
    t = ctoken(s)
    f = s.W.fn('find')
    v = h_find(s.I, s.st, f, [s.W.vmref, t], f.locals[0])
    n, vi = s.variant(v, f.locals[0])
    if n == 'None':
        if code is None:
            return None
        s.abort(code)
    return s.payload(v, f.locals[0], vi)


@word("'", 'C14 C10')
def _(s):
    s.push(parse_find(s))


@word("[']", 'C14 C10', opts=('aligned',))
def _(s):
    xt = parse_find(s)
    op(s, 'idx_lit')
    s.comma(xt)


@word('postpone', 'C14 C10', opts=('aligned',))
def _(s):
    xt = parse_find(s)
    op(s, 'idx_lit')
    s.comma(xt)
    op(s, 'idx__postpone')


@word('_postpone', 'C14 C10', s=1)
def _(s):
    xt = s.pop()
    if not s.cond(ult(xt, s.nwords())):
        s.abort(-21)
    s.icall(s.wget(xt, 'compilation_semantics'), xt)


@word('>body', 'C14 C10', s=1)
def _(s):
    xt = s.pop()
    if not s.cond(ult(xt, s.nwords())):
        s.abort(-24)
    s.push(s.wget(xt, 'dfa'))


@word('>name', 'C14 C10', s=1)
def _(s):
    xt = s.pop()
    if not s.cond(ult(xt, s.nwords())):
        s.abort(-24)
    s.push(s.wget(xt, 'nfa'))
