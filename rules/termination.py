"""C26: loops of the words come to an end.

Structural part: a loop whose every round takes the next item of a finite standard iterator that the
loop itself does not replace, and that leaves when there is none, ends.  A loop that goes round again
when its iterator is exhausted and has no other way out never does.  The remaining loops (chains of
words and labels, control-flow stack, interpreters) are followed by the path analysis, which looks
for states a loop comes back to and for loops no path leaves."""
import re
from mir import succs
from runner import rule

ENDLESS = re.compile(r'\b(RangeFrom|Repeat|RepeatWith|Cycle|Successors|FromFn|dyn)\b')
INTERPRETERS = ('execute_word', 'run', 'evaluate_input', 'evaluate', 'interpret_token', 'load_line', 'load_core_fth')


def target(stmts, local):
    """the local a chain of reborrows points to"""
    for _ in range(6):
        for s in reversed(stmts):
            if s[0] == 'asg' and s[1] == (local, ()):
                rv = s[2]
                if rv[0] == 'ref' or rv[0] == 'addr':
                    pl = [x for x in rv[1:] if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int)]
                    if not pl:
                        return None
                    if not pl[0][1]:
                        return pl[0][0]
                    if pl[0][1] == (('*',),):
                        local = pl[0][0]
                        break
                    return None
                if rv[0] == 'use' and rv[1][0] == 'pl' and not rv[1][1][1]:
                    local = rv[1][1][0]
                    break
                return None
        else:
            return None
    return None


def reaches(blocks, body, start, goal, without=()):
    seen, w = set(), [start]
    while w:
        x = w.pop()
        if x in seen or x in without or x not in body:
            continue
        seen.add(x)
        for y in succs(blocks[x][1]):
            if y == goal:
                return True
            w.append(y)
    return False


def none_arm(p, f, bi, ety):
    """the block control enters when the call ending block bi returned None"""
    t = f.blocks[bi][1]
    dest, b = t[4], t[5]
    for _ in range(4):
        if b is None:
            return None
        st, term = f.blocks[b]
        if term[0] == 'goto':
            b = term[2]
            continue
        if term[0] != 'switch' or term[2][0] != 'pl':
            return None
        d = term[2][1]
        if any(s[0] == 'asg' and s[1] == d and s[2][0] == 'discr' and s[2][1] == dest for s in st):
            for v, c in term[3]:
                if v == 0:
                    return c
            return term[4]
        return None
    return None


def is_next(p, c):
    return c is not None and not p.fns[c].local and re.search(r'(^|::)(next|next_back)$', p.fns[c].name) is not None


def judge(p, f, head, body):
    """('ends'|'endless'|'runs'|None, why)"""
    calls = [(bi, f.blocks[bi][1]) for bi in sorted(body) if f.blocks[bi][1][0] == 'call']
    inner = [b for h, b in f.loops.items() if h != head and h in body and b < body]
    best = None
    for bi, t in calls:
        c = t[6] if isinstance(t[6], int) else None
        if c is not None and not is_next(p, c) and p.fns[c].name.split('::')[-1] in INTERPRETERS:
            best = best or ('runs', 'runs Forth code: %s' % p.fns[c].name.split('::')[-1])
        if not is_next(p, c) or any(bi in b for b in inner):
            continue
        # every round passes the call
        others = [y for y in succs(f.blocks[head][1])]
        if bi != head and any(reaches(f.blocks, body, y, head, {bi}) for y in others):
            continue
        a = t[3][0]
        it = target(f.blocks[bi][0], a[1][0]) if a[0] == 'pl' and not a[1][1] else None
        if it is None:
            # the reference may have been made before the loop
            it = a[1][0] if a[0] == 'pl' and not a[1][1] else None
            if it is None or p.types[f.locals[it]].get('k') != 'ref':
                continue
        ty = p.types[f.locals[it]]['s']
        if ENDLESS.search(ty) or 'rtforth::' in ty:
            continue
        if any(s[0] == 'asg' and s[1] == (it, ()) and p.types[f.locals[it]].get('k') != 'ref' for b in body for s in f.blocks[b][0]) or \
                any(x[1][4] == (it, ()) for x in calls):
            continue
        n = none_arm(p, f, bi, ty)
        if n is None:
            continue
        if n not in body or not reaches(f.blocks, body, n, head) and n != head:
            return 'ends', 'takes the next item of %s and leaves when there is none' % ty
        out = [y for x in body for y in succs(f.blocks[x][1]) if y not in body and reachable_from(f.blocks, body, n, x, head)]
        if not out:
            return 'endless', 'goes round again when %s is exhausted' % ty
    return best or (None, 'no measure found')


def reachable_from(blocks, body, n, x, head):
    return x == n or reaches(blocks, body, n, x, {head})


@rule('C26', 'loops end')
def _(ctx, out, tier):
    p = ctx.W.p
    for f in list(p.fns):
        if f is None or not f.local or (f.raw is None and f.blocks is None):
            continue
        p.compile(f)
        for head, body in sorted((f.loops or {}).items()):
            out.functions.add(f.name)
            where = p.span(f.blocks[head][1][1])
            k, why = judge(p, f, head, body)
            if k == 'ends':
                out.ok()
            elif k == 'runs':
                out.notes.append('%s: %s' % (where, why))
            elif k == 'endless':
                out.bad('%s: endless loop' % f.name.split('::')[-1], where, 'the loop %s' % why)
            else:
                out.unk('%s: loop in %s: %s' % (where, f.name, why))
            out.sample('%s: loop in %s %s' % (where, f.name.split('::')[-1], why))
