"""move, end of definitions, case chains, labels, markers"""
from base import *
from core_comp import op, branch, resolve, patchable, CA, CM, define, have_words
import vm

D = 3


# ---------------------------------------------------------------- move

def in_ds(s, a, n):
    return s.cond(ult(s.start(), a)) and s.cond(ule(a, s.limit())) and s.cond(ule(n, sub(s.limit(), a)))


@word('move', 'C01 C10', s=3, unroll=D)
def _(s):
    a, b, u = s.pops(3)
    if not s.cond(slt(c64(0), u)):
        return
    if not (in_ds(s, a, u) and in_ds(s, b, u)):
        s.abort(-9)
    for n in range(1, D + 1):
        if s.cond(eq(u, c64(n))):
            break
    else:
        raise Bound()
    v = [s.load(addc(a, k), 'U8') for k in range(n)]
    for k in range(n):
        s.store(addc(b, k), v[k], 'U8')


# ---------------------------------------------------------------- end of a definition

def exit_xt(s):
    xt = s.ref('idx_exit')
    s.assume(ult(xt, s.nwords()))
    return xt


@word(';', 'C14 C06 C24', opts=('aligned', have_words))
def _(s):
    if not s.cond(eq(s.depth('c'), const(0, 8))) or not s.cond(eq(fn('anybit', (s.rd(s.at('forward_bitset')).name,), 64), c64(0))):
        s.abort_then(-22, lambda: s.set_state('is_compiling', False))
    s.comma(exit_xt(s))
    s.wset(s.last(), 'hidden', False)
    s.set_state('is_compiling', False)


@word('endcase', 'C06', opts=CA, unroll=D)
def _(s):
    # the whole structure is known to be right before anything is compiled
    parts = []
    while True:
        n, f = s.cpop()
        if n == 'Case':
            break
        if n != 'Endof':
            s.abort(CM)
        if len(parts) >= D:
            raise Bound()
        parts.append(f[0])
    op(s, 'idx_drop')
    for p in parts:
        patchable(s, p)
        resolve(s, p)


# ---------------------------------------------------------------- labels

@word('0labels', 'C24')
def _(s):
    for a in ('forward_bitset', 'resolved_bitset'):
        models.bs_update(s.I, s.st, s.at(a), 'clear', None)


INVALID = -24


def label_of(s):
    """the label number on the stack, if it names a slot of the label table"""
    n = s.pop()
    L = s.at('labels')
    c = s.capacity(L)
    s.assume(eq(c, models.vec_len(s.I, s.st, L)))
    if not (s.cond(bneg(eq(n, c64(0)))) and s.cond(ult(n, c))):
        s.abort(INVALID)
    e = s.elem_ty(L)
    return n, trunc(n, 32), Ref(L.root, L.path + (('g', 'elems'), ('i', n, e)), None, e)


@word('label', 'C24', s=1, opts=('aligned',), unroll=D)
def _(s):
    n, b, slot = label_of(s)
    fw, rs = s.at('forward_bitset'), s.at('resolved_bitset')
    here = s.here()
    if s.bit(fw, b):
        # every pending reference is patched; the references form a chain ended by 0
        p = s.rd(slot)
        s.assume(bneg(eq(p, c64(0))))           # what goto left there is the address of a cell it compiled
        k = 0
        while True:
            nxt = s.load(p, 'Usize')
            s.store(p, here)
            if s.cond(eq(nxt, c64(0))):
                break
            p = nxt
            k += 1
            if k > D:
                raise Bound()
        s.wr(slot, here)
        s.set_bit(fw, b, False)
        s.set_bit(rs, b, True)
        return
    if s.bit(rs, b):
        s.abort(INVALID)
    s.wr(slot, here)
    s.set_bit(rs, b, True)


def goto(s, n, b, slot):
    fw, rs = s.at('forward_bitset'), s.at('resolved_bitset')
    if s.bit(fw, b):
        branch(s, s.rd(slot))
        s.wr(slot, addc(s.here(), -8))
    elif s.bit(rs, b):
        branch(s, s.rd(slot))
    else:
        branch(s, c64(0))
        s.wr(slot, addc(s.here(), -8))
        s.set_bit(fw, b, True)


@word('goto', 'C24', s=1, opts=('aligned',))
def _(s):
    goto(s, *label_of(s))


@word('call', 'C24', s=1, opts=('aligned',))
def _(s):
    r = addc(s.here(), 40)
    op(s, 'idx_lit')
    s.comma(r)
    op(s, 'idx_to_r')
    goto(s, *label_of(s))


# ---------------------------------------------------------------- markers

def wlref(s, name):
    return s.fref(s.at('wordlist'), name)


def buckets(s):
    return s.W.T[wlref(s, 'buckets').to]['len']


@word('marker', 'C15', opts=('aligned',))
def _(s):
    last = s.last()
    old = s.rd(wlref(s, 'buckets'))
    s.wr(wlref(s, 'temp_buckets'), old)
    define(s, 'unmark', 'compile_unmark')
    t = wlref(s, 'temp_buckets')
    s.comma(last)
    for i in range(buckets(s)):
        s.comma(s.rd(s.aref(t, c64(i))))


def in_dict(s, A):
    wp = s.state('word_pointer')
    A(ult(wp, s.nwords()))
    A(bneg(eq(wp, c64(0))))
    w = s.word(wp)
    nfa, dfa = s.fget(w, 'nfa'), s.fget(w, 'dfa')
    A(ult(addc(s.start(), 16), nfa))
    A(ult(nfa, dfa))
    A(ule(dfa, s.here()))
    A(ule(c64(8 * 80), sub(s.here(), dfa)))
    A(ule(s.here(), s.limit()))


@word('fn:unmark', 'C15', opts=(in_dict,))
def _(s):
    wp = s.state('word_pointer')
    nfa, dfa = s.wget(wp, 'nfa'), s.wget(wp, 'dfa')
    b = wlref(s, 'buckets')
    for i in range(buckets(s)):
        s.wr(s.aref(b, c64(i)), s.load(addc(dfa, 8 * (i + 1)), 'Usize'))
    s.set_here(nfa)
    # the dictionary ends just before the marker again
    e = s.W.field(s.at('wordlist').to, 'words')
    wl = s.at('wordlist')
    s.vset_len(Ref(wl.root, wl.path + (e,), None, e[3]), wp)
    s.wr(wlref(s, 'last'), addc(wp, -1))
