"""Scanning loops do not treat a later character differently from an earlier one.

The comparison with the reference follows a bounded number of rounds of a loop that scans text.  Here
the loops are followed once more through a round in the middle: every place the loop writes holds an
arbitrary value when the round begins.  A decision taken from then on that compares an amount the loop
carries (how much was read, how much was collected) with a constant, and nothing else, makes the
behaviour depend on how much text there was."""
import signal
import base
import terms
from terms import P, B, tosigned, show
from interp import Fork
from spec import impl_paths
from runner import rule

CONTENT = {'char', 'byte', 'utf8len', 'load', 'mem', 'U8', 'digit'}
SCANS = {'C14': ['fn:parse_word', 'parse', '_skip', 'fn:find', 'wl:hash'], 'C09': ['parse', '_skip', '(', '\\', '.('], 'C16': ['ds:compile_str', 'ds:put_cstr'],
         'C25': ['words', '.backtrace', '.xtime', '0xtime', '.r', 'f.r', 'wl:find_xt'], 'C24': ['label'],
         'C18': ['fn:evaluate_integer'], 'C10': ['move']}
ALLOWED = {'ds:put_cstr': (255, 256)}      # documented limits: a name has at most 255 bytes
SMALL = 8           # a constant up to here belongs to a prefix the bounded rounds cover


def carried(d, tags):
    """is d (a descriptor or value) an amount the loop carried, not the text it looks at?"""
    if isinstance(d, P):
        return any(carried(terms.ATOMS[x], tags) for mono, _ in d[2] for x in mono)
    if isinstance(d, tuple):
        if len(d) > 1 and d[0] == 'fn' and d[1] in CONTENT or d and isinstance(d[0], str) and d[0].startswith('load'):
            return False
        if any(d[:len(t)] == t for t in tags) or d[:1] == ('len',) or d[:2] == ('fn', 'strlen'):
            return True
        return any(carried(e, tags) for e in d if isinstance(e, tuple))
    return False


def leaves(b):
    if isinstance(b, B):
        if b[0] in ('eq0', 'ult', 'slt'):
            yield b
        elif isinstance(b[1], tuple):
            for x in b[1]:
                yield from leaves(x)


LIMITS = (64, 65, 128, 129, 255, 256)       # the sizes of the stacks


def stacklen(d):
    return d[0] == 's' and terms.show_atom(terms.atom(d)).endswith('_stk.len')


def core(d):
    """the unknown a widened one is made of"""
    while d[0] == 'zext' and len(d[1][2]) == 1 and len(d[1][2][0][0]) == 1 and not d[1][1]:
        d = terms.ATOMS[d[1][2][0][0][0]]
    return d


def threshold(b, tags, allowed=(), counts={}):
    """the comparison of a carried amount with a constant in condition b, if there is one"""
    for l in leaves(b):
        ps = [l[1]] if isinstance(l[1], P) else [x for x in l[1] if isinstance(x, P)]
        ats = [x for p in ps for mono, _ in p[2] for x in mono]
        ats = [terms.ATOMS[x] for x in ats]
        if all(stacklen(core(d)) for d in ats):
            if any(SMALL <= abs(tosigned(p[1], p[0])) < 1 << 31 and abs(tosigned(p[1], p[0])) not in LIMITS for p in ps if p[1]):
                return l
            continue
        rest = [d for d in ats if not carried(d, tags)]
        if len(rest) == len(ats) or ps[0][0] <= 8 or any(d[:2] != ('fn', 'utf8len') for d in rest):
            continue
        if counts and not rest and all(d[0] == 's' and SMALL <= counts.get(d[1], 0) < 1 << 31 for d in ats):
            return l            # a budget that is used up
        if any(SMALL <= abs(tosigned(p[1], p[0])) < 1 << 31 and abs(tosigned(p[1], p[0])) not in allowed for p in ps if p[1]):
            return l
    return None


class Late(Exception):
    pass


def late(*a):
    raise Late()


def scan(ctx, out, name):
    W = ctx.W
    sp = base.WORDS[name][0]
    if name.split(':')[0] in base.INTERNAL:
        fid, recv = W.resolve(name)
    else:
        e = ctx.by.get(name)
        if e is None:
            out.unk('%s: not among the registrations that could be followed' % name)
            return
        fid, recv = e.fid, True
    fn = W.p.fns[fid].name
    out.functions.add(fn)
    W.I.generic, W.I.counts = [], {}
    signal.signal(signal.SIGALRM, late)
    signal.alarm(200)
    try:
        paths, _, _ = impl_paths(W, fid, sp.need, sp.opts, 1, recv, sp.kw.get('opaque', ()))
    except Late:
        out.unk('%s: not followed within the time limit' % name)
        return
    finally:
        signal.alarm(0)
        found, counts, W.I.generic = W.I.generic, W.I.counts, None
    seen, bad = set(), set()
    for b, tags, wh in found:
        seen.add(wh)
        x = threshold(b, tags, ALLOWED.get(name, ()), counts)
        if x is not None and wh not in bad:
            bad.add(wh)
            out.bad('%s: %s' % (name, wh[0].split('::')[-1]), wh[1], 'a loop over the text treats what comes after a fixed amount of it differently: %s' % show(x)[:160])
    for wh in seen - bad:
        out.ok()
    lost = [p.why for p in paths if p.status == 'unsup']
    if lost:
        out.unk('%s: %s' % (name, str(lost[0])[:160]))
    else:
        out.ok()
    out.sample('%s: %d paths through a round in the middle, %d decisions' % (fn, len(paths), len(seen)))


def install(props):
    for p, names in props.items():
        for n in names:
            def go(ctx, out, tier, n=n):
                scan(ctx, out, n)
            rule(p, 'no fixed limit in the scanning loop of ' + n)(go)


install(SCANS)
