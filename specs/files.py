"""words on host files: each call to the host is an ordered effect, each outcome of the call is followed"""
from base import *
import models

IO = -37
BADARG = -24
BADADDR = -9
PATH_MAX = 256


def code(s, n):
    return c64(n)


def in_ds(s, a, n):
    return s.cond(ule(s.start(), a)) and s.cond(ule(a, s.limit())) and s.cond(ule(n, sub(s.limit(), a)))


def text(s, a, n):
    return Str((('raw', s.st.facts.simp(a), s.st.facts.simp(n), tuple(s.st.mem)),))


def slot(s, table, i):
    v = s.at(table)
    e = models.vec_elem_ty(s.I, v.to)
    return Ref(v.root, v.path + (('g', 'elems'), ('i', i, e)), None, e)


def count(s, table):
    return models.vec_len(s.I, s.st, s.at(table))


def opened(s, fid, table='files'):
    """slot of an open file, None if the identifier names no open file"""
    if not s.cond(slt(c64(0), fid)):
        return None
    i = addc(fid, -1)
    if not s.cond(ult(i, count(s, table))):
        return None
    r = slot(s, table, i)
    return r if s.is_some(r) else None


def handle(s, r):
    return s.name(s.rd(s.payref(r)))


def new_slot(s, table, n):
    """index of the slot the new entry takes: one that was free, or one past the end"""
    fid = s.result(n)
    k = count(s, table)
    if fid is not None:
        i = s.st.facts.simp(addc(fid, -1))
        if s.st.facts.decide(ult(i, k)) is True:
            if s.is_some(slot(s, table, i)):
                s.ev('WRONG', 'an entry in use is overwritten')
            return i, slot(s, table, i)
    return k, None


def put_entry(s, table, n, v):
    i, r = new_slot(s, table, n)
    if r is not None:
        s.some(r, v)
    else:
        s.vpush(s.at(table), models.some(s.I, models.vec_elem_ty(s.I, s.at(table).to), v))
    return addc(i, 1)


def tables(s, A):
    for t in ('files', 'sources', 'lines'):
        A(ult(models.vec_len(s.I, s.st, s.at(t)), c64(1 << 60)))


@word('file-size', 'C11', s=1, opts=(tables,))
def _(s):
    r = opened(s, s.pop())
    if r is None:
        return fail3(s, BADARG)
    if not s.file('metadata', handle(s, r)):
        return fail3(s, IO)
    n = fn('metalen', (s.name(s.fileval(s.tyref('std::fs::Metadata'))),), 64)
    ud(s, n)


def ud(s, n):
    if s.cond(slt(n, c64(0))):
        return fail3(s, -11)
    s.push(n), s.push(c64(0)), s.push(c64(0))


def fail3(s, e):
    s.push(c64(-1)), s.push(c64(-1)), s.push(c64(e))


def fail2(s, e, n=-1):
    s.push(c64(n)), s.push(c64(e))


@word('file-position', 'C11', s=1, opts=(tables,))
def _(s):
    r = opened(s, s.pop())
    if r is None:
        return fail3(s, BADARG)
    if not s.file('seek', handle(s, r), 'Current', c64(0)):
        return fail3(s, IO)
    ud(s, s.fileval())


@word('close-file', 'C11', s=1, opts=(tables,))
def _(s):
    r = opened(s, s.pop())
    if r is None:
        return s.push(c64(BADARG))
    s.none(r)
    s.push(c64(0))


def open_with(s, modes):
    a, n, fam = s.pops(3)
    if not s.cond(ule(n, c64(PATH_MAX))):
        return fail2(s, BADARG)
    for m, flags in modes:
        if s.cond(eq(fam, c64(m))):
            break
    else:
        return fail2(s, BADARG)
    if not in_ds(s, a, n):
        return fail2(s, BADADDR)
    if not s.file('open', text(s, a, n), tuple(sorted(flags))):
        return fail2(s, IO)
    f = s.fileval(s.payty('files'))
    i = put_entry(s, 'files', 2, f)
    s.push(i), s.push(c64(0))


@word('open-file', 'C11', s=3, opts=(tables,))
def _(s):
    open_with(s, [(0, ['read']), (1, ['write']), (2, ['read', 'write'])])


@word('create-file', 'C11', s=3, opts=(tables,))
def _(s):
    open_with(s, [(1, ['write', 'truncate', 'create']), (2, ['read', 'write', 'truncate', 'create'])])


@word('delete-file', 'C11', s=2, opts=(tables,))
def _(s):
    a, n = s.pops(2)
    if not s.cond(ule(n, c64(PATH_MAX))):
        return s.push(c64(BADARG))
    if not in_ds(s, a, n):
        return s.push(c64(BADADDR))
    s.push(c64(0 if s.file('remove_file', text(s, a, n)) else IO))


@word('read-file', 'C11', s=3, opts=(tables,))
def _(s):
    a, n, fid = s.pops(3)
    r = opened(s, fid)
    if r is None:
        return fail2(s, BADARG, 0)
    if not in_ds(s, a, n):
        return fail2(s, BADADDR, 0)
    if not s.file('read', handle(s, r), a, n):
        return fail2(s, IO, 0)
    m = s.fileval()
    s.assume(ule(m, n))
    models.write_mem(s.I, s.st, s.st.facts.simp(a), m, ('file', s.k))
    s.push(m), s.push(c64(0))


@word('write-file', 'C11', s=3, opts=(tables,))
def _(s):
    a, n, fid = s.pops(3)
    r = opened(s, fid)
    if r is None:
        return s.push(c64(BADARG))
    if not in_ds(s, a, n):
        return s.push(c64(BADADDR))
    s.push(c64(0 if s.file('write_all', handle(s, r), a, n) else IO))


def sized(s, go):
    lo, hi, fid = s.pops(3)
    r = opened(s, fid)
    if r is None or not s.cond(eq(hi, c64(0))) or s.cond(slt(lo, c64(0))):
        return s.push(c64(BADARG))
    s.push(c64(0 if go(handle(s, r), lo) else IO))


@word('resize-file', 'C11', s=3, opts=(tables,))
def _(s):
    sized(s, lambda h, n: s.file('set_len', h, n))


@word('reposition-file', 'C11', s=3, opts=(tables,))
def _(s):
    sized(s, lambda h, n: s.file('seek', h, 'Start', n))
