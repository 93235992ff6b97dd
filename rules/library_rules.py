"""core.fth: load-time values, flags, and well-formedness of every definition"""
import library as ref
from runner import rule, library


@rule('C20', 'library source')
def _(ctx, out, tier):
    L = library(ctx)
    for line, what in L.problems:
        out.bad('core.fth: %s' % what, 'core.fth:%d' % line, what)
    for line, what in L.beyond:
        out.unk('core.fth:%d: %s' % (line, what))

    def bad(key, where, what):
        """a word may be missing, or hold something else, because its definition was not followed"""
        if L.beyond:
            out.unk('%s: %s' % (key, what))
        else:
            out.bad(key, where, what)
    for d in L.order:
        out.ok()
        if d.kind == 'colon':
            out.functions.add('core.fth: ' + d.name)
    for n, v in ref.CONSTANTS.items():
        d = L.defs.get(n)
        if d is None or d.kind != 'const':
            bad('constant %s' % n, 'core.fth:%d' % (d.line if d else 0), 'the constant is missing')
        elif d.value != v:
            out.bad('constant %s' % n, 'core.fth:%d' % d.line, 'constant is %r, documented %r' % (d.value, v))
        else:
            out.ok()
    for n, cells in ref.DATA.items():
        d = L.defs.get(n)
        if d is None or d.kind != 'data':
            bad('data word %s' % n, 'core.fth', 'the data word is missing')
            continue
        if d.size < ref.SIZES[n]:
            bad('size of %s' % n, 'core.fth:%d' % d.line, '%d bytes are allotted, %d are used' % (d.size, ref.SIZES[n]))
        else:
            out.ok()
        for o, v in cells.items():
            if d.cells.get(o) != v:
                bad('contents of %s' % n, 'core.fth:%d' % d.line, 'cell %d starts as %r, must be %r' % (o, d.cells.get(o), v))
            else:
                out.ok()
    for n, x in ref.DEFERRED.items():
        d = L.defs.get(n)
        if d is None or d.kind != 'defer' or d.cells.get(0) != ('xt', x):
            bad('deferred word %s' % n, 'core.fth:%d' % (d.line if d else 0), 'must perform %s' % x)
        else:
            out.ok()
    for d in L.order:
        for flag, table in (('immediate', ref.IMMEDIATE), ('compile_only', ref.COMPILE_ONLY)):
            if d.name in ref.LIB or d.name in table:
                if getattr(d, flag) != (d.name in table):
                    out.bad('%s: %s' % (d.name, flag), 'core.fth:%d' % d.line, 'flag is %s' % getattr(d, flag))
                else:
                    out.ok()
    missing = [d.name for d in L.order if d.kind == 'colon' and d.name not in ref.LIB]
    if missing:
        out.notes.append('no reference: ' + ' '.join(missing))
    # later definitions must not silently replace an earlier word
    seen = {}
    for d in L.order:
        if d.name in seen or d.name in ctx.by and d.name in ref.LIB and False:
            out.bad('%s: defined twice' % d.name, 'core.fth:%d' % d.line, 'also at line %d' % seen[d.name])
        seen[d.name] = d.line
