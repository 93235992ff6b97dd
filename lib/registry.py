"""Word registry: which Rust function implements which Forth word, with which flags.

Obtained by abstract interpretation of the add_* registration methods; calls to
`add_primitive`/`immediate`/`compile_only` are recorded instead of entered."""
from vm import *

GROUPS = ('add_core', 'add_output', 'add_tools', 'add_facility', 'add_environment', 'add_float',
          'add_units', 'add_file_access', 'add_loader')


class Entry:
    def __init__(self, name, fid, group, idx):
        self.name, self.fid, self.group, self.idx = name, fid, group, idx
        self.immediate = False
        self.compile_only = False
        self.comp = None            # compilation semantics override

    def __repr__(self):
        return '%s%s%s' % (self.name, '!' if self.immediate else '', '*' if self.compile_only else '')


def lit_str(I, st, v):
    s = models.str_of(I, st, v)
    out = ''
    for p in s.p:
        if p[0] != 'lit':
            raise Unsup('non-literal word name %s' % (p,))
        out += p[1].decode() if isinstance(p[1], bytes) else p[1]
    return out


def registry(W, groups=GROUPS):
    """name -> Entry (last registration wins), plus the final `references` record"""
    words = []
    by = {}
    refs = {}
    problems = []

    def h_add(imm, co):
        def h(I, st, f, a, dty):
            n = lit_str(I, st, a[1])
            if not isinstance(a[2], FnV):
                raise Unsup('registered action of %s is not a function' % n)
            I.event(st, ('REG', n, a[2].fid, imm, co))
            return UNIT
        return h

    def h_flag(which):
        def h(I, st, f, a, dty):
            I.event(st, ('FLAG', which))
            return UNIT
        return h

    def h_find_c(base):
        def h(I, st, f, a, dty):
            n = lit_str(I, st, a[1])
            k = None
            i = base
            for e in st.events:
                if e[0][0] == 'REG':
                    if e[0][1].lower() == n.lower():
                        k = i
                    i += 1
            if k is None:
                k2 = by.get(n.lower())
                k = k2.idx if k2 else None
            # index 0 means "not found" in this system
            return models.none(I, dty) if k is None or k == 0 else models.some(I, dty, const(k, 64))
        return h

    base = 0
    for g in groups:
        if g not in W.methods:
            problems.append('registration method %s not found' % g)
            continue
        sv = dict(W.opaque)
        W.opaque.clear()
        for nm, h in (('add_primitive', h_add(False, False)), ('add_immediate', h_add(True, False)),
                      ('add_compile_only', h_add(False, True)), ('add_immediate_and_compile_only', h_add(True, True)),
                      ('immediate', h_flag('i')), ('compile_only', h_flag('c')), ('find', h_find_c(base))):
            if nm in W.methods:
                W.opaque[W.fid(nm)] = h
        try:
            st0 = W.newst({}, W.base_facts())
            fx = st0.facts.assume(bneg(ult(words_len(W, W.I, st0), const(1024, 64))))
            rs = W.I.run(W.fn(g), [W.vmref], facts=fx)
        finally:
            W.opaque.clear()
            W.opaque.update(sv)
        ok = [r for r in rs if r.status == 'ret']
        if len(ok) != 1 or any(r.status != 'ret' for r in rs):
            problems.append('%s: %s' % (g, [(r.status, r.why) for r in rs]))
            continue
        st = ok[0]
        for ev in st.events:
            e = ev[0]
            if e[0] == 'REG':
                x = Entry(e[1], e[2], g, base)
                x.immediate, x.compile_only = e[3], e[4]
                words.append(x)
                by[e[1].lower()] = x
                base += 1
            elif e[0] == 'FLAG' and words:
                if e[1] == 'i':
                    words[-1].immediate = True
                else:
                    words[-1].compile_only = True
        r = W.place('references')
        for n, i, ft in W.fields(r.to):
            v = W.I.read(st, r.root, r.path + (('f', i, 0, ft),), ft)
            if isinstance(v, P) and is_const(v):
                refs[n] = cval(v)
            else:
                refs.setdefault(n, None)
        if g == 'add_core':
            W.awake0 = None
            if 'awake' in W.methods:
                W.awake0 = [(x.status, x.ret) for x in W.I.run(W.fn('awake'), [W.vmref, const(0, 64)], heap=st.heap, facts=st.facts, mem=st.mem, nf=st.nf)]
            wl = W.place('wordlist')
            e = W.field(wl.to, 'words')
            for w in words:
                v = None
                try:
                    v = word_field(W, st, const(w.idx, 64), 'compilation_semantics')
                except Exception as ex:
                    pass
                if isinstance(v, FnV):
                    w.comp = v.fid
    W.semantics = {}
    r = W.place('references')
    byidx = {w.idx: w for w in words}
    for n, i, ft in W.fields(r.to):
        w = byidx.get(refs.get(n))
        if w is not None:
            # compilation semantics of the words the compiler refers to: fixed at registration
            k = W.I.symval(fld_name(W, r, i), ft)
            W.semantics[k] = w.comp if w.comp is not None else W.fid('compile_word')
    return words, by, refs, problems


def fld_name(W, r, i):
    n = r.root
    st = W.newst({}, W.base_facts())
    v = W.I.read(st, r.root, r.path + (('f', i, 0, W.T[r.to]['variants'][0]['fields'][i][1]),), None)
    return terms.ATOMS[v[2][0][0][0]][1]


def fixed_semantics(W, fv):
    """function id of the compilation semantics of a word the compiler refers to, or None"""
    n = fv.name if isinstance(fv, Sym) else None
    if not (isinstance(n, tuple) and n[0] == 'fld' and isinstance(n[1], tuple) and n[1][0] == 'idx'):
        return None
    pt = W.name_type(n)
    try:
        wt = W.name_type(n[1]) or W.tyname('core::Word<%s>' % W.vms)
        if W.T[wt]['variants'][0]['fields'][n[3]][0] != 'compilation_semantics':
            return None
    except Exception:
        return None
    return getattr(W, 'semantics', {}).get(n[1][2])


def word_ref(W, st, xt):
    """place of dictionary entry xt, as the code's own indexing computes it"""
    wl = acc(W, W.I, st, 'wordlist')
    e = W.field(wl.to, 'words')
    vr = Ref(wl.root, wl.path + (e,), None, e[3])
    sl = models.vec_slice(W.I, st, vr, None)
    ety = W.tyname('core::Word<%s>' % W.vms)
    return Ref(sl.root, sl.path + (('i', xt, ety),), None, ety)


def word_field(W, st, xt, name):
    r = word_ref(W, st, xt)
    return get_field(W, W.I, st, r, name)
