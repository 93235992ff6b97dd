"""Rules judged on every path of every word, without a reference for the word."""
from spec import *
import spec as specmod
import terms

PROPS = {'C01': ('contain',), 'C08': ('depth',), 'C09': ('borrow',), 'C21': ('panic',), 'C26': ('finish',)}
TABLE = {}
# paths of a word that only a broken invariant of the machine's own tables could take
EXCUSED = (
    ('BoundsCheck', 'imm_label', 'labels are numbered below the table size before they enter a label set'),
    ('BoundsCheck', 'imm_goto', 'labels are numbered below the table size before they enter a label set'),
    ('BoundsCheck', 'Wordlist', 'execution tokens the machine stores in its own reference table exist'),
)
TRUSTED = ('wordlist.words', 'c_stk', 'labels')     # addresses the machine itself recorded


class Aspect:
    def __init__(self, judge, skip, opts, drop):
        self.judge, self.skip, self.opts, self.drop = judge, skip, opts, drop


def aspect(name, skip=(), opts=(), drop=()):
    def d(fn):
        TABLE[name] = Aspect(fn, skip, opts, drop)
        return fn
    return d


def space(W):
    if not hasattr(W, '_space'):
        s = S(W, W.newst({}, W.base_facts()))
        W._space = (s.start(), s.fget(s.ds(), 'cap'))
    return W._space


@aspect('contain', skip=('ds:', 'fn:load_str', 'fn:set_source', 'fn:push_source'), opts=('anydepth',))
def contain(ctx, name, sp, st):
    """every raw access lies inside the data space"""
    start, cap = space(ctx.W)
    viol, unk = [], []
    for ev, fx, wh in st.events:
        if ev[0] not in ('load', 'store', 'copy'):
            continue
        a, sz = fx.simp(ev[1]), fx.simp(ev[2])
        if in_space(fx, a, sz, start, cap) or any(t in show(a) for t in TRUSTED):
            continue
        what = '%s of %s bytes at %s' % (ev[0], show(sz), show(a))
        hit = None
        for lit in (ult(cap, sz), ult(sub(cap, sz), sub(a, start))):
            hit = hit or specmod.feasible(fx, lit)
        if hit:
            viol.append(dict(key='%s: access outside the data space in %s' % (name, wh[0]), where='%s' % (wh,), what=what, witness=hit,
                             path=[show(x if v else bneg(x)) for x, v in fx.lits.items()][-6:]))
        else:
            unk.append('%s at %s not shown to stay inside the data space' % (what[:200], wh[1]))
    return viol, unk


def in_space(fx, a, sz, start, cap):
    if fx.decide(ule(sz, cap)) and fx.decide(ule(sub(a, start), sub(cap, sz))):
        return True
    # a multiple of the cell size below the end, which is one too, has a whole cell before the end
    return is_const(sz) and cval(sz) == 8 and cellular(a) and bool(fx.decide(ule(start, a))) and bool(fx.decide(ult(a, add(start, cap))))


def cellular(a):
    """a masked value whose low three bits are clear"""
    c, items = a[1], a[2]
    if c % 8 or len(items) != 1 or items[0][1] != 1 or len(items[0][0]) != 1:
        return False
    d = terms.ATOMS[items[0][0][0]]
    return d[0] == 'anf' and all(isinstance(m, tuple) and isinstance(m[-1], int) and m[-1] % 8 == 0 for m in d[1])


@aspect('panic', skip=('ds:', 'fn:find', 'fn:load_str', 'fn:set_source', 'fn:push_source', 'fn:evaluate_input', 'fn:load_core_fth'), opts=('anydepth',))
def panic(ctx, name, sp, st):
    """no path ends in a host panic"""
    viol, unk = [], []
    if st.status == 'panic':
        kind, why, wh = (tuple(st.why) + ('', '', ''))[:3] if isinstance(st.why, (tuple, list)) else (str(st.why), '', '')
        if not any(e[0] == kind and e[1] in str(wh) for e in EXCUSED) and not st.facts.infeasible():
            viol.append(dict(key='%s: panics (%s %s)' % (name, kind, why), where='%s' % (wh,),
                             what='a path of the word ends in a host panic: %s %s' % (kind, why)))
    for b, ffx, wh, op in st.mayovf:
        if any(t in show(b) for t in TRUSTED):
            continue
        w = specmod.feasible(st.facts, b)
        if w is False:
            continue
        if w is None:
            unk.append('overflow trap at %s not excluded' % (wh,))
        else:
            viol.append(dict(key='%s: arithmetic overflow' % name, where='%s' % (wh,), what='%s overflow traps (panics in checked builds)' % op, witness=w))
    return viol, unk


@aspect('depth', skip=('ds:', 'wl:', 'stk:', 'fun:', 'dbg:'))
def depth(ctx, name, sp, st):
    raise NotImplementedError       # the reference decides it, see runner.spec_task


BUFFERS = ('last_token', 'output_buffer', 'input_buffer')


@aspect('borrow', skip=('ds:', 'wl:', 'stk:', 'fun:', 'dbg:'), opts=('anydepth', 'outbuf'))
def borrow(ctx, name, sp, st):
    """a buffer that is present before the word is present when the word ends, raises an exception or runs another word"""
    W = ctx.W
    viol, unk = [], []
    points = []
    for ev, fx, wh in st.events:
        if ev[0] == 'ABORT':
            points.append(('when it raises an exception', ev[2], fx, wh))
        elif ev[0] in ('EXEC', 'ICALL', 'CALL'):
            sn = [x for x in ev if isinstance(x, Snap)]
            if sn:
                points.append(('when it runs another word', sn[0].heap, fx, wh))
    if st.status == 'ret':
        points.append(('when it ends', st.heap, st.facts, None))
    for buf in BUFFERS:
        for when, heap, fx, wh in points:
            for f2 in splits(W, fx, buf):
                s0 = S(W, W.newst({}, f2))
                s1 = S(W, W.newst(dict(heap), f2))
                try:
                    r = s0.at(buf)
                    v0, v1 = s0.rd(r), s1.rd(r)
                    if v0 == v1:
                        continue
                    n1, _ = s1.variant(v1, r.to)
                    if n1 != 'None':
                        continue
                    n0, _ = s0.variant(v0, r.to)
                except (Fork, Unsup, Dead, PanicPath):
                    continue        # not decided by this path: nothing is known to be missing
                if n0 == 'Some':
                    viol.append(dict(key='%s: %s missing %s' % (name, buf, when), what='the %s taken by the word is not put back %s' % (buf.replace('_', ' '), when),
                                     **({'where': '%s' % (wh,)} if wh else {})))
    return viol, unk


def splits(W, fx, buf, n=0):
    """the facts, refined until the place of the buffer is determined"""
    s = S(W, W.newst({}, fx))
    try:
        r = s.at(buf)
        s.variant(s.rd(r), r.to)
        return [fx]
    except Fork as e:
        if n > 4:
            return []
        out = []
        for b in (e.b, bneg(e.b)):
            f2 = fx.assume(b)
            if f2 is not None:
                out += splits(W, f2, buf, n + 1)
        return out
    except (Unsup, Dead, PanicPath):
        return []


@aspect('finish')
def finish(ctx, name, sp, st):
    """no path of the word comes back to a loop head in a state it was in before, or enters a loop that nothing leaves"""
    if st.status != 'diverge' or st.facts.infeasible():
        return [], []
    if name == 'pause' and asleep(ctx.W, st):
        return [], []       # documented limit: nobody to switch to
    return [dict(key='%s: never ends' % name, what='a path of the word goes round a loop for ever')], []


def asleep(W, st):
    """no task is awake on this path"""
    s = S(W, W.newst({}, st.facts))
    try:
        i = 0
        while True:
            b = s.run('awake', c64(i))
            if s.facts.decide(b) is not False:
                return False
            i += 1
    except PanicPath:
        return i > 0
    except (Fork, Unsup, Dead):
        return False
