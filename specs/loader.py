"""source files as input: opening, closing, reading lines"""
from base import *
import models
from core_text import out, put, textof
from files import in_ds, text, slot, count, opened, handle, put_entry, tables, BADARG, BADADDR, IO, new_slot


def show(s, v):
    o = out(s)
    if o is not None:
        put(s, o, *textof(s, v))


def paired(s, A):
    """every source has a line buffer"""
    tables(s, A)
    A(eq(models.vec_len(s.I, s.st, s.at('sources')), models.vec_len(s.I, s.st, s.at('lines'))))


@word('open-source', 'C23', s=3, opts=(paired,))
def _(s):
    a, n, fid = s.pops(3)
    if not in_ds(s, a, n):
        s.abort(BADADDR)
    r = opened(s, fid)
    if r is None:
        s.abort(BADARG)
    f = s.rd(s.payref(r))
    s.none(r)
    ty = s.payty('sources')
    src = {}
    for nm, i, ft in s.W.fields(ty):
        src[nm] = Sym(('bufreader', s.name(f)), ft) if nm == 'reader' else text(s, a, n)
    i, free = new_slot(s, 'sources', 1)
    v = s.struct(ty, **src)
    if free is not None:
        s.some(free, v)
    else:
        s.vpush(s.at('sources'), models.some(s.I, models.vec_elem_ty(s.I, s.at('sources').to), v))
        s.vpush(s.at('lines'), models.some(s.I, models.vec_elem_ty(s.I, s.at('lines').to), Str(())))
    s.push(addc(i, 1))


@word('close-source', 'C23', s=1, opts=(paired,))
def _(s):
    sid = s.pop()
    if s.cond(eq(s.run('source_id'), sid)):
        s.abort(BADARG)
    r = opened(s, sid, 'sources')
    if r is None:
        s.abort(BADARG)
    s.none(r)


@word('.source-path', 'C23 C25', s=1, opts=('anyerror', paired,))
def _(s):
    r = opened(s, s.pop(), 'sources')
    if r is None:
        s.abort(BADARG)
    p = s.payref(r)
    show(s, s.rd(s.fref(p, 'path')))


@word('.source-line', 'C23 C25', s=1, opts=('anyerror', paired,))
def _(s):
    r = opened(s, s.pop(), 'lines')
    if r is None:
        s.abort(BADARG)
    show(s, s.rd(s.payref(r)))


def read_line(s, sid):
    """(length, more) or None after an error whose code is the second result"""
    r = opened(s, sid, 'sources')
    if r is None:
        return None, BADARG
    l = opened(s, sid, 'lines')
    if l is None:
        return None, BADARG
    ok = s.file('read_line', s.name(s.rd(s.fref(s.payref(r), 'reader'))))
    p = s.payref(l)
    if not ok:
        s.wr(p, Str((('sym', ('partial', s.k)),)))
        return None, IO
    n = s.fileval()
    line = Str((('sym', ('line', s.k)),))
    s.assume(eq(models.strlen(s.I, s.st, line), n))
    more = bneg(eq(n, c64(0)))
    keep = n

    def ends(c):
        if s.cond(eq(s.strlen(cur), c64(0))):
            return False
        return s.cond(bop('ends_with', cur.p, (('lit', c),)))
    cur = line
    if ends(b'\n'):
        keep = addc(n, -1)
        cur = Str((('sub', line, c64(0), keep),))
        if s.cond(eq(keep, c64(0))):
            cur = Str(())
        if ends(b'\r'):
            keep = addc(n, -2)
            cur = Str((('sub', line, c64(0), keep),))
    s.wr(p, cur)
    return keep, more


@word('load-line', 'C23', s=1, opts=(paired,))
def _(s):
    n, more = read_line(s, s.pop())
    if n is None:
        s.abort(more)
    s.push(n)
    s.flag(more)
