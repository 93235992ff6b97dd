"""stack checks, exceptions, tasks, source selection"""
from base import *

NT = 5


# ---------------------------------------------------------------- C22 stack checks

def canary_eq(s, k, ix):
    r = s.stk(k)
    cv = s.fget(r, 'canary')
    x = s.rd(s.slot(const(ix, 8), k))
    if isinstance(x, P):
        return eq(x, cv)
    if isinstance(x, Fl):
        return s.I.fbin('Eq', x, cv)
    ty = W_ctl(s)
    return eq(s.I.discr_of_value(s.st, x, ty, 64), s.I.discr_of_value(s.st, cv, ty, 64))


def W_ctl(s):
    return s.ctl_ty()


def over(s, k):
    """more than 64 entries were pushed: the cell above the capacity is no longer the canary"""
    d = s.depth(k)
    if not s.cond(canary_eq(s, k, 64)):
        return True
    return s.cond(ult(const(64, 8), d)) and s.cond(ule(d, const(128, 8)))


def under(s, k):
    """the cell below the stack was overwritten, or the depth is negative"""
    d = s.depth(k)
    if not s.cond(canary_eq(s, k, 255)):
        return True
    return s.cond(ult(const(128, 8), d))


def stack_checks(s):
    for k, o, u in (('s', -3, -4), ('r', -5, -6), ('c', -22, -22), ('f', -44, -45)):
        if over(s, k):
            s.abort(o)
        if under(s, k):
            s.abort(u)


def ctl_canary(s, A):
    """the marker value of the control-flow stack is the Canary variant"""
    r = s.fref(s.stk('c'), 'canary')
    vs = s.W.T[r.to]['variants']
    n = [i for i, v in enumerate(vs) if v['name'] == 'Canary']
    if n:
        A(eq(s.I.discr_of_value(s.st, s.rd(r), r.to, 64), c64(int(vs[n[0]]['discr']))))


word('?stacks', 'C22 C10', s=0, opts=('anydepth', ctl_canary))(stack_checks)


# ---------------------------------------------------------------- C10 exceptions

def clear(s):
    for k in 'sfc':
        s.set_depth(const(0, 8), k)
        for ix in (64, 255):
            s.wr(s.slot(const(ix, 8), k), s.fget(s.stk(k), 'canary'))


@word('0stacks', 'C10', opts=('anyerror',))
def _(s):
    clear(s)


def raise_(s, code):
    clear(s)
    s.some(s.error_ref(), code)
    h = s.run('handler')
    s.set_state('aborted_word_pointer', s.state('word_pointer'))
    if s.cond(ult(h, s.nwords())):
        s.exec(h)


@word('fn:abort_with', 'C10', opts=('anyerror',))
def _(s, e):
    raise_(s, e)


@word('abort', 'C10', opts=('anyerror',))
def _(s):
    s.abort(-1)


@word('handler!', 'C10', s=1, opts=('anyerror',))
def _(s):
    s.run('set_handler', s.pop())


def excv(s, e):
    return s.payload(e, exc_type(s.W), 0) if not isinstance(e, P) else e


@word('error', 'C10', opts=('anyerror',))
def _(s):
    e = s.opt(s.error_ref())
    s.push(c64(0) if e is None else sext(excv(s, e), 64))


@word('0error', 'C10', opts=('anyerror',))
def _(s):
    s.none(s.error_ref())


# ---------------------------------------------------------------- C23 source selection

def vlen(s, name):
    return models.vec_len(s.I, s.st, s.at(name))


def velem(s, name, ix):
    r = s.at(name)
    sl = models.vec_slice(s.I, s.st, r, None)
    ety = s.elem_ty(r)
    return Ref(sl.root, sl.path + (('i', ix, ety),), None, ety)


def set_source(s, sid):
    if s.cond(eq(sid, c64(0))):
        s.set_state('source_id', sid)
        return
    if not s.cond(slt(c64(0), sid)):
        s.abort(-24)
    ix = addc(sid, -1)
    if not s.cond(ult(ix, vlen(s, 'sources'))):
        s.abort(-24)
    if not s.is_some(velem(s, 'sources', ix)):
        s.abort(-24)
    if not s.is_some(velem(s, 'lines', ix)):
        s.abort(-24)
    s.set_state('source_id', sid)


def lines_match(s, A):
    A(eq(vlen(s, 'sources'), vlen(s, 'lines')))
    A(ult(vlen(s, 'sources'), c64(1 << 32)))


@word('source-id', 'C23')
def _(s):
    s.push(s.state('source_id'))


@word('source-id!', 'C23 C10', s=1, opts=(lines_match,))
def _(s):
    set_source(s, s.pop())


@word('source-idx', 'C23')
def _(s):
    s.push(s.state('source_index'))


@word('source-idx!', 'C23', s=1)
def _(s):
    s.set_state('source_index', s.pop())


@word('reset', 'C10 C23', r=0, opts=('anyerror', lines_match))
def _(s):
    reset(s)


def reset(s):
    s.set_depth(const(0, 8), 'r')
    r = s.fref(s.stk('r'), 'inner')
    s.wr(r, Arr(s.W.T[r.to]['elem'], ('rep', s.fget(s.stk('r'), 'canary'))))
    s.set_state('source_id', c64(0))
    b = s.at('input_buffer')
    if s.is_some(b):
        v = s.rd(b)
        n, vi = s.variant(v, b.to)
        s.some(b, Str(()))
    s.set_state('aborted_word_pointer', c64(0))
    s.set_state('source_index', c64(0))
    s.set_state('is_compiling', False)
    s.none(s.error_ref())


# ---------------------------------------------------------------- C12 tasks

def task_no(s):
    i = addc(s.pop(), -1)
    if not s.cond(ult(i, c64(NT))):
        return None
    return i


@word('me', 'C12', opts=('anyerror',))
def _(s):
    s.push(addc(s.run('current_task'), 1))


@word('suspend', 'C12 C10', s=1, opts=('anyerror',))
def _(s):
    i = task_no(s)
    if i is None:
        s.abort(-24)
    s.run('set_awake', i, False)


@word('resume', 'C12 C10', s=1, opts=('anyerror',))
def _(s):
    i = task_no(s)
    if i is None:
        s.abort(-24)
    s.run('set_awake', i, True)


@word('activate', 'C12 C10', s=1, r=1, opts=('anyerror', lines_match))
def _(s):
    i = task_no(s)
    if i is None:
        s.ip = s.rpop()
        s.abort(-24)
    s.run('set_awake', i, True)
    cur = s.run('current_task')
    ip = s.ip
    s.run('set_current_task', i)
    reset(s)
    s.ip = ip
    s.run('set_current_task', cur)
    s.ip = s.rpop()


def task_case(c):
    def fx(s, A):
        A(eq(s.run('current_task'), c64(c)))
    return fx


@word('pause', 'C12', cases=[task_case(c) for c in range(NT)], unroll=NT + 1, opts=('anyerror',))
def _(s):
    for c in range(NT):
        if s.cond(eq(s.run('current_task'), c64(c))):
            for k in range(1, NT + 1):
                i = c64((c + k) % NT)
                if s.cond(s.run('awake', i)):
                    s.run('set_current_task', i)
                    return
    s.diverge()


@word('base', 'C16')
def _(s):
    s.push(addc(s.start(), 8))


# ---------------------------------------------------------------- time

@word('mtime', 'C13')
def _(s):
    s.push(udiv(s.run('system_time_ns'), c64(1000000)))


@word('utime', 'C13')
def _(s):
    s.push(udiv(s.run('system_time_ns'), c64(1000)))
