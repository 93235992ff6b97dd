"""the dictionary a machine starts with: which words exist, their flags, and the words the compiler refers to"""
import base
from runner import rule
from spec import AnchorError

IMMEDIATE = '''( \\ [ 0labels .('''.split()
BOTH = '''['] [char] ; if else then case of endof endcase begin while repeat until again label goto call recurse do ?do loop +loop
postpone does> s" ."'''.split()
COMPILE_ONLY = '''exit lit flit _s" branch 0branch _do _qdo _loop _+loop unloop leave i j >r r> r@ 2>r 2r> 2r@ compile, _postpone _does
pause activate'''.split()
REFERENCES = {'idx_lit': 'lit', 'idx_flit': 'flit', 'idx_exit': 'exit', 'idx_zero_branch': '0branch', 'idx_branch': 'branch', 'idx_do': '_do', 'idx_qdo': '_qdo',
              'idx_loop': '_loop', 'idx_plus_loop': '_+loop', 'idx_s_quote': '_s"', 'idx_type': 'type', 'idx_over': 'over', 'idx_equal': '=', 'idx_drop': 'drop',
              'idx__postpone': '_postpone', 'idx_to_r': '>r', 'idx__does': '_does'}
COMPILING = {'leave': 'fn:compile_leave'}         # words with compilation semantics of their own


@rule('C14', 'word registration')
def _(ctx, out, tier):
    W = ctx.W
    if ctx.problems:
        for p in ctx.problems:
            out.unk(p)
        return
    for n in base.WORDS:
        if n.split(':')[0] in base.INTERNAL and n != ':':
            continue
        e = ctx.by.get(n)
        if e is None:
            if not any(sp.kw.get('alias_optional') for sp in base.WORDS[n]):
                out.bad('%s: not registered' % n, 'word registration', 'the word is missing from the dictionary')
            continue
        out.functions.add(W.p.fns[e.fid].name)
        where = ctx.span(e.fid)
        want = (n in IMMEDIATE or n in BOTH, n in COMPILE_ONLY or n in BOTH)
        got = (e.immediate, e.compile_only)
        if got != want:
            out.bad('%s: flags' % n, where, 'registered with (immediate, compile-only) = %s, must be %s' % (got, want))
        else:
            out.ok()
        if n in COMPILING:
            if e.comp is None:
                out.bad('%s: compilation semantics' % n, where, 'the word has no compilation semantics of its own')
            else:
                try:
                    want = W.resolve(COMPILING[n])[0]
                    if e.comp != want:
                        out.unk('%s: compilation semantics are %s' % (n, W.p.fns[e.comp].name))
                    else:
                        out.ok()
                except AnchorError as x:
                    out.unk('%s: %s' % (n, x))
        elif e.comp is not None and W.p.fns[e.comp].base != 'compile_word':
            out.bad('%s: compilation semantics' % n, where, 'compiled by %s, must be compiled as a call' % W.p.fns[e.comp].name)
        else:
            out.ok()
    seen = {}
    for w in ctx.words:
        k = w.name.lower()
        if k in seen:
            out.bad('%s: registered twice' % k, ctx.span(w.fid), 'the registration in %s hides the one in %s' % (w.group, seen[k].group))
        else:
            out.ok()
        seen[k] = w
    byidx = {w.idx: w.name for w in ctx.words}
    for r, n in REFERENCES.items():
        if r not in ctx.refs:
            out.notes.append('no reference record %s' % r)      # renamed or dropped: its uses are compared word by word
            continue
        got = byidx.get(ctx.refs[r])
        if got != n:
            out.bad('reference %s' % r, 'word registration', 'the compiler uses %s where it must use %s' % (got, n))
        else:
            out.ok()
