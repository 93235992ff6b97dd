"""Abstract transfer functions for library items (containers, strings, slices, formatting, floats)."""
from terms import *
import terms
from interp import *

M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def intr(*names):
    return model(*('intrinsic:' + n for n in names))


# ------------------------------------------------------------------ helpers

def u64(k):
    return const(k, 64)


def rd(I, st, ref, ty=None):
    return I.read(st, ref.root, ref.path, ty if ty is not None else ref.to)


def wr(I, st, ref, v, ty=None):
    I.write(st, ref.root, ref.path, v, ty if ty is not None else ref.to)


def some(I, ty, v):
    return Ag(ty, variant_idx(I, ty, 'Some'), {0: v})


def none(I, ty):
    return Ag(ty, variant_idx(I, ty, 'None'), {})


def variant_idx(I, ty, name):
    for i, v in enumerate(I.T[ty]['variants']):
        if v['name'] == name:
            return i
    raise Unsup('variant %s' % name)


def payload(I, st, v, ty, variant):
    """value carried by single-field variant"""
    vi = variant_idx(I, ty, variant)
    fty = I.T[ty]['variants'][vi]['fields'][0][1]
    return I.elem(st, v, ('f', 0, vi, fty))


def mkres(I, st, ty, name):
    """symbolic value of the given type"""
    return I.symval(name, ty)


def fresh(I, st, tag, ty):
    st.nf += 1
    return I.symval(('ext', tag, st.nf, len(st.events)), ty)


# ------------------------------------------------------------------ strings

def str_of(I, st, v):
    if isinstance(v, Str):
        return v
    if isinstance(v, Sym):
        return Str((('sym', v.name),))
    if isinstance(v, Ref):
        if v.root[0] == 'raw':
            n = st.facts.simp(v.meta)
            return Str((('raw', st.facts.simp(v.root[1]), n, tuple(st.mem)),))
        if v.root[0] == 'str':
            if v.path:
                x = v.path[-1]
                if is_const(x[1]) and is_const(v.meta):
                    b = v.root[1][cval(x[1]):cval(x[1]) + cval(v.meta)]
                    return Str((('lit', b),)) if b else Str(())
                return Str((('sub', Str((('lit', v.root[1]),)), x[1], v.meta),))
            return Str((('lit', v.root[1]),)) if v.root[1] else Str(())
        path = v.path
        if path and path[-1][0] == 'i' and path[-1][2] == 'off':
            b = I.read(st, v.root, path[:-1], None)
            s = str_of(I, st, b)
            if cval(path[-1][1]) == 0 and is_const(path[-1][1]) and v.meta == strlen(I, st, s):
                return s
            return Str((('sub', s, path[-1][1], v.meta),))
        x = I.read(st, v.root, path, None)
        if isinstance(x, Str):
            if v.meta is not None and st.facts.simp(v.meta) != strlen(I, st, x):
                return Str((('sub', x, u64(0), v.meta),))
            return x
        if isinstance(x, Sym):
            return Str((('sym', x.name),))
        if isinstance(x, Arr):
            return Str((('arr', I.valname(x), v.meta),))
    raise Unsup('string value %r' % (v,))


def merge_chars(p):
    """successive characters of one string as a substring of it"""
    out = []
    for x in p:
        if x[0] == 'sub':
            b, off = sub_base(Str((x,)))
            x = ('sub', Str(b), off, x[3])
        elif x[0] == 'ch' and isinstance(x[1], P) and len(x[1][2]) == 1 and x[1][1] == 0 and x[1][2][0][1] == 1 and len(x[1][2][0][0]) == 1:
            d = terms.ATOMS[x[1][2][0][0][0]]
            if d[0] == 'fn' and d[1] == 'char':
                x = ('sub', Str(d[2][0]), d[2][1], fn('utf8len', (x[1],), 64))
        if x[0] == 'sub' and out and out[-1][0] == 'sub' and out[-1][1] == x[1] and add(out[-1][2], out[-1][3]) == x[2]:
            out[-1] = ('sub', x[1], out[-1][2], add(out[-1][3], x[3]))
            continue
        out.append(x)
    return tuple(out)


def strlen(I, st, s):
    t = u64(0)
    for p in s.p:
        if p[0] == 'lit':
            t = addc(t, len(p[1]))
        elif p[0] == 'sub':
            t = add(t, p[3])
        elif p[0] == 'raw':
            t = add(t, p[2])
        elif p[0] == 'ch':
            if is_const(p[1]) and cval(p[1]) < 128:
                t = addc(t, 1)
            else:
                t = add(t, fn('utf8len', (p[1],), 64))
        elif p[0] == 'arr':
            t = add(t, p[2])
        else:
            t = add(t, fn('strlen', (p,), 64))
    return st.facts.simp(t)


def norm_pieces(p):
    out = []
    for x in p:
        if x[0] == 'ch' and is_const(x[1]) and cval(x[1]) < 128:
            x = ('lit', bytes([cval(x[1])]))
        if x[0] == 'lit' and out and out[-1][0] == 'lit':
            out[-1] = ('lit', out[-1][1] + x[1])
            continue
        if x[0] == 'lit' and not x[1]:
            continue
        out.append(x)
    return tuple(out)


def append(I, st, ref, pieces):
    s = str_of(I, st, rd(I, st, ref))
    wr(I, st, ref, Str(norm_pieces(s.p + tuple(pieces))))


def strref(I, st, ref, to):
    """&str / &[u8] view of a String place"""
    s = str_of(I, st, I.read(st, ref.root, ref.path, None))
    return Ref(ref.root, ref.path + (('g', 'str'),), strlen(I, st, s), to)


@model('<std::string::String as std::ops::Deref>::deref', '<std::string::String as std::ops::DerefMut>::deref_mut',
       'std::string::String::as_str', 'std::string::String::as_mut_str', 'std::string::String::as_bytes',
       '<std::string::String as std::convert::AsRef<str>>::as_ref', '<std::string::String as std::borrow::Borrow<str>>::borrow')
def _(I, st, f, a, dty):
    return strref(I, st, a[0], I.T[dty]['to'])


@model('core::str::<impl str>::as_bytes', 'core::str::<impl str>::as_bytes_mut')
def _(I, st, f, a, dty):
    return Ref(a[0].root, a[0].path, a[0].meta, I.T[dty]['to'])


@model('core::str::<impl str>::as_ptr', 'core::str::<impl str>::as_mut_ptr', 'core::slice::<impl [T]>::as_ptr', 'core::slice::<impl [T]>::as_mut_ptr')
def _(I, st, f, a, dty):
    r = a[0]
    if r.root[0] == 'raw' and not r.path:
        return Ref(r.root, (), None, I.T[dty]['to'])
    if r.path and r.path[-1][0] == 'i' and r.path[-1][2] == 'off':
        return Ref(r.root, r.path[:-1] + (('i', r.path[-1][1], I.T[dty]['to']),), None, I.T[dty]['to'])
    return Ref(r.root, r.path + (('i', u64(0), I.T[dty]['to']),), None, I.T[dty]['to'])


@model('std::string::String::len', 'core::str::<impl str>::len')
def _(I, st, f, a, dty):
    if a[0].meta is not None:
        return a[0].meta
    return strlen(I, st, str_of(I, st, rd(I, st, a[0])))


@model('std::string::String::is_empty', 'core::str::<impl str>::is_empty')
def _(I, st, f, a, dty):
    n = a[0].meta if a[0].meta is not None else strlen(I, st, str_of(I, st, rd(I, st, a[0])))
    return eq(st.facts.simp(n), u64(0))


@model('core::slice::<impl [T]>::len')
def _(I, st, f, a, dty):
    return a[0].meta


@model('core::slice::<impl [T]>::is_empty')
def _(I, st, f, a, dty):
    return eq(st.facts.simp(a[0].meta), u64(0))


@model('std::string::String::push')
def _(I, st, f, a, dty):
    append(I, st, a[0], [('ch', a[1])])
    return UNIT


@model('std::string::String::push_str', '<std::string::String as std::fmt::Write>::write_str')
def _(I, st, f, a, dty):
    append(I, st, a[0], str_of(I, st, a[1]).p)
    if f.base == 'write_str':
        return Ag(dty, variant_idx(I, dty, 'Ok'), {0: UNIT})
    return UNIT


@model('<std::string::String as std::fmt::Write>::write_char')
def _(I, st, f, a, dty):
    append(I, st, a[0], [('ch', a[1])])
    return Ag(dty, variant_idx(I, dty, 'Ok'), {0: UNIT})


@model('<std::string::String as std::iter::Extend<char>>::extend')
def _(I, st, f, a, dty):
    v = a[1]
    it = v if isinstance(v, Ag) else None
    if it is None or 'Chars<' not in I.T[it.ty]['s'] or not isinstance(it.f.get('s'), Ref) or \
            not (is_const(it.f['pos']) and cval(it.f['pos']) == 0):
        return NotImplemented           # analyse the library's own loop
    append(I, st, a[0], str_of(I, st, it.f['s']).p)
    return UNIT


@model('std::string::String::clear')
def _(I, st, f, a, dty):
    wr(I, st, a[0], Str(()))
    return UNIT


@model('std::string::String::truncate')
def _(I, st, f, a, dty):
    s = str_of(I, st, rd(I, st, a[0]))
    if is_const(a[1]) and cval(a[1]) == 0:
        wr(I, st, a[0], Str(()))
        return UNIT
    n = strlen(I, st, s)
    k = st.facts.simp(a[1])
    if not I.decide(st, ule(k, n)) or I.decide(st, eq(k, n)):
        return UNIT
    b, off = sub_base(s)
    if not I.decide(st, bop('charb', b, st.facts.simp(add(off, k)))):
        raise PanicPath('String::truncate', 'not a char boundary')
    wr(I, st, a[0], Str((('sub', Str(b), off, k),)))
    return UNIT


@model('std::string::String::pop')
def _(I, st, f, a, dty):
    s = str_of(I, st, rd(I, st, a[0]))
    n = strlen(I, st, s)
    if I.decide(st, eq(n, u64(0))):
        return none(I, dty)
    for c in b'\n\r \t"':
        if st.facts.decide(bop('ends_with', s.p, (('lit', bytes([c])),)), False) is True:
            ch, k = const(c, 32), u64(1)
            break
    else:
        ch = fn('lastchar', (s.p,), 32)
        k = fn('utf8len', (ch,), 64)
    m = st.facts.simp(sub(n, k))
    b, off = sub_base(s)
    wr(I, st, a[0], Str((('sub', Str(b), off, m),)))
    return some(I, dty, ch)


@model('std::string::String::new', 'std::string::String::with_capacity')
def _(I, st, f, a, dty):
    if f.base == 'with_capacity':
        st.events.append((('alloc', a[0]), st.facts, I.where(st)))
    return Str(())


@model('<std::string::String as std::convert::From<&str>>::from', '<str as std::borrow::ToOwned>::to_owned',
       '<str as std::string::ToString>::to_string', '<T as std::string::ToString>::to_string', 'std::str::<impl std::borrow::ToOwned for str>::to_owned')
def _(I, st, f, a, dty):
    st.events.append((('alloc', None), st.facts, I.where(st)))
    return str_of(I, st, a[0])


@model('<std::string::String as std::clone::Clone>::clone')
def _(I, st, f, a, dty):
    return str_of(I, st, rd(I, st, a[0]))


@model('core::str::<impl str>::eq_ignore_ascii_case')
def _(I, st, f, a, dty):
    x, y = str_of(I, st, a[0]), str_of(I, st, a[1])
    if all(p[0] == 'lit' for p in x.p + y.p):
        return b''.join(p[1] for p in x.p).lower() == b''.join(p[1] for p in y.p).lower()
    p, q = sorted([x.p, y.p], key=str)
    return bop('eqci', p, q)


@model('core::str::traits::<impl std::cmp::PartialEq for str>::eq', '<str as std::cmp::PartialEq>::eq',
       '<std::string::String as std::cmp::PartialEq<str>>::eq', '<std::string::String as std::cmp::PartialEq<&str>>::eq',
       '<std::string::String as std::cmp::PartialEq>::eq')
def _(I, st, f, a, dty):
    def g(v):
        if isinstance(v, Ref) and v.meta is None:
            v = rd(I, st, v)
        return str_of(I, st, v)
    x, y = g(a[0]), g(a[1])
    if all(p[0] == 'lit' for p in x.p + y.p):
        return b''.join(p[1] for p in x.p) == b''.join(p[1] for p in y.p)
    p, q = sorted([x.p, y.p], key=str)
    return bop('eqstr', p, q)


def subrange(I, st, r, lo, hi, elem_ty, to):
    """fat reference to [lo, hi) of slice ref r"""
    n = sub(hi, lo)
    if r.root[0] == 'raw' and not r.path:
        sz = I.T[elem_ty].get('size', 1) if elem_ty is not None else 1
        return Ref(('raw', add(r.root[1], mulc(lo, sz))), (), st.facts.simp(n), to)
    if r.path and r.path[-1][0] == 'i' and r.path[-1][2] == 'off':
        return Ref(r.root, r.path[:-1] + (('i', add(r.path[-1][1], lo), 'off'),), st.facts.simp(n), to)
    return Ref(r.root, r.path + (('i', lo, 'off'),), st.facts.simp(n), to)


def slice_bounds(I, st, f, rng, rty, n, inclusive_name=None):
    """decide bounds of a range value; returns (lo, hi) or raises PanicPath"""
    nm = I.T[rty]['name'].split('::')[-1]
    fl = [x[0] for x in I.T[rty]['variants'][0]['fields']]

    def g(k):
        i = fl.index(k)
        return st.facts.simp(I.elem(st, rng, ('f', i, 0, I.T[rty]['variants'][0]['fields'][i][1])))
    if nm == 'Range':
        lo, hi = g('start'), g('end')
    elif nm == 'RangeFrom':
        lo, hi = g('start'), n
    elif nm == 'RangeTo':
        lo, hi = u64(0), g('end')
    elif nm == 'RangeFull':
        return u64(0), n
    elif nm == 'RangeInclusive':
        lo, hi = g('start'), addc(g('end'), 1)
        if I.decide(st, eq(hi, u64(0))):
            raise PanicPath('SliceIndex', 'range end overflow')
    elif nm == 'RangeToInclusive':
        lo, hi = u64(0), addc(g('end'), 1)
    else:
        raise Unsup('range type ' + nm)
    if not I.decide(st, ule(lo, hi)):
        raise PanicPath('SliceIndex', 'start > end')
    if not I.decide(st, ule(hi, n)):
        raise PanicPath('SliceIndex', 'end > len')
    return lo, hi


def index_any(I, st, f, r, idx, ity, dty, isstr):
    t = I.T[ity]
    if r.meta is None:
        raise Unsup('index thin')
    to = I.T[dty]['to']
    n = st.facts.simp(r.meta)
    if isinstance(idx, P):
        if not I.decide(st, ult(idx, n)):
            raise PanicPath('BoundsCheck', 'slice index')
        if r.root[0] == 'raw' and not r.path:
            return Ref(('raw', add(r.root[1], mulc(idx, I.T[to].get('size', 1)))), (), None, to)
        if r.path and r.path[-1][0] == 'i' and r.path[-1][2] == 'off':
            return Ref(r.root, r.path[:-1] + (('i', add(r.path[-1][1], idx), to),), None, to)
        return Ref(r.root, r.path + (('i', idx, to),), None, to)
    lo, hi = slice_bounds(I, st, f, idx, ity, n)
    tk = I.T[to]
    ety = tk.get('elem')
    if isstr:
        s = str_of(I, st, r)
        for b in (lo, hi):
            b = st.facts.simp(b)
            if b == u64(0) or b == n or all(p[0] == 'lit' and max(p[1], default=0) < 128 for p in s.p):
                continue
            if not I.decide(st, bop('charb', s.p, b)):
                raise PanicPath('StrIndex', 'not a char boundary')
    return subrange(I, st, r, lo, hi, ety, to)


def vec_slice(I, st, ref, to):
    v = I.read(st, ref.root, ref.path, None)
    n = st.facts.simp(I.elem(st, v, ('g', 'len')))
    return Ref(ref.root, ref.path + (('g', 'elems'),), n, to)


@model('<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut',
       'std::vec::Vec::<T, A>::as_slice', 'std::vec::Vec::<T, A>::as_mut_slice')
def _(I, st, f, a, dty):
    return vec_slice(I, st, a[0], I.T[dty]['to'])


@model('<std::vec::Vec<T, A> as std::ops::Index<I>>::index', '<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut')
def _(I, st, f, a, dty):
    r = vec_slice(I, st, a[0], None)
    ity = f.targs[1] if len(f.targs) > 1 else None
    for t in f.targs:
        if I.T[t].get('n') == 'Usize' or 'Range' in I.T[t].get('name', ''):
            ity = t
    return index_any(I, st, f, r, a[1], ity, dty, False)


@model('core::slice::index::<impl std::ops::Index<I> for [T]>::index', 'core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut')
def _(I, st, f, a, dty):
    ity = next(t for t in reversed(f.targs) if I.T[t].get('n') == 'Usize' or 'Range' in I.T[t].get('name', ''))
    return index_any(I, st, f, a[0], a[1], ity, dty, False)


@model('std::array::<impl std::ops::Index<I> for [T; N]>::index', 'std::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut')
def _(I, st, f, a, dty):
    ity = next(t for t in reversed(f.targs) if I.T[t].get('n') == 'Usize' or 'Range' in I.T[t].get('name', ''))
    n = I.T[a[0].to]['len']
    return index_any(I, st, f, Ref(a[0].root, a[0].path, u64(n), a[0].to), a[1], ity, dty, False)


@model('<std::string::String as std::ops::Index<I>>::index', 'core::str::traits::<impl std::ops::Index<I> for str>::index',
       '<std::string::String as std::ops::IndexMut<I>>::index_mut')
def _(I, st, f, a, dty):
    ity = next(t for t in reversed(f.targs) if 'Range' in I.T[t].get('name', ''))
    r = a[0] if a[0].meta is not None else strref(I, st, a[0], None)
    return index_any(I, st, f, r, a[1], ity, dty, True)


for _t in ('Range<usize>', 'RangeFrom<usize>', 'RangeTo<usize>', 'RangeInclusive<usize>', 'RangeFull'):
    def _mk(t):
        def h(I, st, f, a, dty):
            ty = next((k for k, v in I.T.items() if v['s'] == 'std::ops::' + t), None)
            return index_any(I, st, f, a[1], a[0], ty, dty, True)

        def hs(I, st, f, a, dty):
            ty = next((k for k, v in I.T.items() if v['s'] == 'std::ops::' + t), None)
            return index_any(I, st, f, a[1], a[0], ty, dty, False)
        M['core::str::traits::<impl std::slice::SliceIndex<str> for std::ops::%s>::index' % t] = h
        M['<std::ops::%s as std::slice::SliceIndex<[T]>>::index' % t] = hs
        M['<std::ops::%s as std::slice::SliceIndex<[T]>>::index_mut' % t] = hs

        def hg(I, st, f, a, dty):
            # Option-returning get
            ty = next((k for k, v in I.T.items() if v['s'] == 'std::ops::' + t), None)
            rty = I.T[dty]['variants'][1]['fields'][0][1]
            try:
                r = index_any(I, st, f, a[1], a[0], ty, rty, True)
            except PanicPath:
                return none(I, dty)
            return some(I, dty, r)
        M['core::str::traits::<impl std::slice::SliceIndex<str> for std::ops::%s>::get' % t] = hg
    _mk(_t)


@model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def _(I, st, f, a, dty):
    if isinstance(a[1], P):
        n = st.facts.simp(a[0].meta)
        if I.decide(st, ult(a[1], n)):
            rty = I.T[dty]['variants'][variant_idx(I, dty, 'Some')]['fields'][0][1]
            return some(I, dty, index_any(I, st, f, a[0], a[1], f.targs[-1], rty, False))
        return none(I, dty)
    return NotImplemented


@model('core::str::<impl str>::get')
def _(I, st, f, a, dty):
    ity = next(t for t in reversed(f.targs) if 'Range' in I.T[t].get('name', ''))
    rty = I.T[dty]['variants'][variant_idx(I, dty, 'Some')]['fields'][0][1]
    try:
        return some(I, dty, index_any(I, st, f, a[0], a[1], ity, rty, True))
    except PanicPath:
        return none(I, dty)


# ------------------------------------------------------------------ Vec

def vec_elem_ty(I, ty):
    """element type of a vector type"""
    t = I.T[ty]
    if t.get('name') != 'std::vec::Vec':
        raise AnchorError('not a vector: %s' % t.get('s'))
    return t['args'][0]


def vec_len(I, st, ref):
    v = I.read(st, ref.root, ref.path, None)
    return st.facts.simp(I.elem(st, v, ('g', 'len')))


def vec_set_len(I, st, ref, n):
    I.write(st, ref.root, ref.path + (('g', 'len'),), n, None)


@model('std::vec::Vec::<T, A>::len')
def _(I, st, f, a, dty):
    return vec_len(I, st, a[0])


@model('std::vec::Vec::<T, A>::is_empty')
def _(I, st, f, a, dty):
    return eq(vec_len(I, st, a[0]), u64(0))


@model('std::vec::Vec::<T, A>::capacity')
def _(I, st, f, a, dty):
    return fn('cap', (str(a[0]),), 64)


@model('std::vec::Vec::<T, A>::push')
def _(I, st, f, a, dty):
    n = vec_len(I, st, a[0])
    ety = f.targs[0]
    st.events.append((('vecpush', a[0], n), st.facts, I.where(st)))
    I.write(st, a[0].root, a[0].path + (('g', 'elems'), ('i', n, ety)), a[1], ety)
    vec_set_len(I, st, a[0], addc(n, 1))
    return UNIT


@model('std::vec::Vec::<T, A>::pop')
def _(I, st, f, a, dty):
    n = vec_len(I, st, a[0])
    if I.decide(st, eq(n, u64(0))):
        return none(I, dty)
    m = addc(n, -1)
    v = I.read(st, a[0].root, a[0].path + (('g', 'elems'), ('i', m, f.targs[0])), f.targs[0])
    vec_set_len(I, st, a[0], m)
    return some(I, dty, v)


@model('std::vec::Vec::<T, A>::swap_remove', 'std::vec::Vec::<T, A>::remove')
def _(I, st, f, a, dty):
    n = vec_len(I, st, a[0])
    if not I.decide(st, ult(a[1], n)):
        raise PanicPath('Vec::remove', 'index out of bounds')
    ety = f.targs[0]
    el = lambda i: a[0].path + (('g', 'elems'), ('i', i, ety))
    v = I.read(st, a[0].root, el(a[1]), ety)
    m = addc(n, -1)
    if not I.decide(st, eq(a[1], m)):
        if not f.base.endswith('swap_remove'):
            raise Unsup('Vec::remove in the middle')
        I.write(st, a[0].root, el(a[1]), I.read(st, a[0].root, el(m), ety), ety)
    vec_set_len(I, st, a[0], m)
    return v


@model('std::io::Error::kind')
def _(I, st, f, a, dty):
    e = I.read(st, a[0].root, a[0].path, a[0].to)
    return I.symval(('errkind', str(e)), dty)


@model('std::vec::Vec::<T, A>::truncate')
def _(I, st, f, a, dty):
    n = vec_len(I, st, a[0])
    if I.decide(st, ult(a[1], n)):
        vec_set_len(I, st, a[0], a[1])
    return UNIT


@model('std::vec::Vec::<T, A>::clear')
def _(I, st, f, a, dty):
    vec_set_len(I, st, a[0], u64(0))
    return UNIT


@model('std::vec::Vec::<T, A>::resize')
def _(I, st, f, a, dty):
    st.events.append((('vecresize', a[0], a[1]), st.facts, I.where(st)))
    n = vec_len(I, st, a[0])
    if is_const(n) and cval(n) == 0:
        I.write(st, a[0].root, a[0].path + (('g', 'elems'),), Arr(f.targs[0], ('rep', a[2])), None)
        vec_set_len(I, st, a[0], a[1])
        return UNIT
    raise Unsup('Vec::resize')


@model('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity')
def _(I, st, f, a, dty):
    return Ag(dty, 0, {('g', 'len'): u64(0), ('g', 'elems'): Arr(f.targs[0], None)})


@model('std::vec::Vec::<T, A>::reserve')
def _(I, st, f, a, dty):
    st.events.append((('alloc', a[1]), st.facts, I.where(st)))
    return UNIT


# ------------------------------------------------------------------ raw slices

@model('std::slice::from_raw_parts', 'std::slice::from_raw_parts_mut')
def _(I, st, f, a, dty):
    p = a[0]
    to = I.T[dty]['to']
    esz = I.T[I.T[to]['elem']].get('size', 1)
    n = st.facts.simp(a[1])
    if p.root[0] == 'raw' and not p.path:
        I.event(st, ('rawslice', st.facts.simp(p.root[1]), mulc(n, esz), f.base.endswith('mut')))
        return Ref(p.root, (), n, to)
    raise Unsup('from_raw_parts of %r' % p)


# iterators over slices: Ag(ty, 0, {0: base fat ref, 1: lo, 2: hi})

def mkiter(I, st, r, dty):
    n = st.facts.simp(r.meta)
    return Ag(dty, 0, {0: r, 1: u64(0), 2: n})


@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', 'core::slice::iter::<impl std::iter::IntoIterator for &\'a [T]>::into_iter',
       'core::slice::iter::<impl std::iter::IntoIterator for &\'a mut [T]>::into_iter', 'std::slice::Iter::<\'a, T>::new', "std::slice::IterMut::<'a, T>::new")
def _(I, st, f, a, dty):
    return mkiter(I, st, a[0], dty)


@model("<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter")
def _(I, st, f, a, dty):
    return mkiter(I, st, vec_slice(I, st, a[0], None), dty)


def iter_elem(I, st, r, i, dty):
    rty = I.T[dty]['variants'][variant_idx(I, dty, 'Some')]['fields'][0][1]
    to = I.T[rty]['to']
    if r.root[0] == 'raw' and not r.path:
        return Ref(('raw', add(r.root[1], mulc(i, I.T[to].get('size', 1)))), (), None, to)
    if r.path and r.path[-1][0] == 'i' and r.path[-1][2] == 'off':
        return Ref(r.root, r.path[:-1] + (('i', add(r.path[-1][1], i), to),), None, to)
    return Ref(r.root, r.path + (('i', i, to),), None, to)


@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::next", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next")
def _(I, st, f, a, dty):
    it = rd(I, st, a[0])
    if not isinstance(it, Ag) or not isinstance(it.f.get(0), Ref):
        raise Unsup('slice iter %r' % (it,))
    lo, hi = it.f[1], it.f[2]
    if I.decide(st, ult(lo, hi)):
        e = iter_elem(I, st, it.f[0], lo, dty)
        nf = dict(it.f)
        nf[1] = addc(lo, 1)
        wr(I, st, a[0], Ag(it.ty, it.var, nf, it.base))
        return some(I, dty, e)
    return none(I, dty)


@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::nth", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::nth")
def _(I, st, f, a, dty):
    it = rd(I, st, a[0])
    if not isinstance(it, Ag) or not isinstance(it.f.get(0), Ref):
        raise Unsup('slice iter %r' % (it,))
    lo, hi = it.f[1], it.f[2]
    nf = dict(it.f)
    if I.decide(st, ult(a[1], sub(hi, lo))):
        i = add(lo, a[1])
        e = iter_elem(I, st, it.f[0], i, dty)
        nf[1] = addc(i, 1)
        wr(I, st, a[0], Ag(it.ty, it.var, nf, it.base))
        return some(I, dty, e)
    nf[1] = hi
    wr(I, st, a[0], Ag(it.ty, it.var, nf, it.base))
    return none(I, dty)


@model("<std::slice::Iter<'a, T> as std::iter::DoubleEndedIterator>::next_back", "<std::slice::IterMut<'a, T> as std::iter::DoubleEndedIterator>::next_back")
def _(I, st, f, a, dty):
    it = rd(I, st, a[0])
    if not isinstance(it, Ag) or not isinstance(it.f.get(0), Ref):
        raise Unsup('slice iter %r' % (it,))
    lo, hi = it.f[1], it.f[2]
    if I.decide(st, ult(lo, hi)):
        h = addc(hi, -1)
        e = iter_elem(I, st, it.f[0], h, dty)
        nf = dict(it.f)
        nf[2] = h
        wr(I, st, a[0], Ag(it.ty, it.var, nf, it.base))
        return some(I, dty, e)
    return none(I, dty)


@model("<std::slice::Iter<'_, T> as std::iter::ExactSizeIterator>::len", "<std::slice::IterMut<'_, T> as std::iter::ExactSizeIterator>::len")
def _(I, st, f, a, dty):
    it = rd(I, st, a[0])
    return sub(it.f[2], it.f[1])


@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::size_hint")
def _(I, st, f, a, dty):
    it = rd(I, st, a[0])
    n = sub(it.f[2], it.f[1])
    oty = I.T[dty]['elems'][1]
    return Ag(dty, 0, {0: n, 1: some(I, oty, n)})


# iterators over arrays

@model("std::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter", "std::array::<impl std::iter::IntoIterator for &'a mut [T; N]>::into_iter",
       "core::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter", "core::array::<impl std::iter::IntoIterator for &'a mut [T; N]>::into_iter")
def _(I, st, f, a, dty):
    t = I.T[a[0].to]
    return Ag(dty, 0, {0: Ref(a[0].root, a[0].path, None, a[0].to), 1: u64(0), 2: u64(t['len'])})


@model('std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter')
def _(I, st, f, a, dty):
    aty = f.locals[1]
    root = ('tmp', 'array', len(st.heap))
    st.heap[root] = a[0]
    I.rootty[root] = aty
    return Ag(dty, 0, {0: Ref(root, (), None, aty), 1: u64(0), 2: u64(I.T[aty]['len'])})


@model('<std::array::IntoIter<T, N> as std::iter::Iterator>::next')
def _(I, st, f, a, dty):
    it = rd(I, st, a[0])
    if not isinstance(it, Ag) or not isinstance(it.f.get(0), Ref):
        raise Unsup('array iter %r' % (it,))
    lo, hi = it.f[1], it.f[2]
    if I.decide(st, ult(lo, hi)):
        r = it.f[0]
        ety = I.T[dty]['variants'][variant_idx(I, dty, 'Some')]['fields'][0][1]
        e = I.read(st, r.root, r.path + (('i', lo, ety),), ety)
        nf = dict(it.f)
        nf[1] = addc(lo, 1)
        wr(I, st, a[0], Ag(it.ty, it.var, nf, it.base))
        return some(I, dty, e)
    return none(I, dty)


@model('<std::array::IntoIter<T, N> as std::ops::Drop>::drop')
def _(I, st, f, a, dty):
    it = rd(I, st, a[0])
    if not isinstance(it, Ag) or not isinstance(it.f.get(0), Ref):
        raise Unsup('array iter %r' % (it,))
    e = I.T[I.T[it.f[0].to]['elem']] if I.T[it.f[0].to].get('elem') is not None else {}
    if e.get('k') not in ('int', 'uint', 'fn', 'fnptr', 'tuple', 'ref', 'bool', 'float', 'char'):
        raise Unsup('drop of an array iterator')
    return UNIT


# str iterators: opaque element streams over Str content

@model('core::str::<impl str>::bytes')
def _(I, st, f, a, dty):
    ity = I.T[dty]['variants'][0]['fields'][0][1]
    inner = I.T[ity]['variants'][0]['fields'][0][1] if I.T[ity].get('variants') else ity
    return Ag(dty, 0, {0: Ag(ity, 0, {0: mkiter(I, st, a[0], inner)})})


@model("<std::str::Bytes<'_> as std::iter::Iterator>::next")
def _(I, st, f, a, dty):
    it = rd(I, st, a[0])
    x = it.f[0].f[0]
    lo, hi = x.f[1], x.f[2]
    if I.decide(st, ult(lo, hi)):
        s = x.f[0]
        e = byte_at(I, st, s, lo)
        nx = dict(x.f)
        nx[1] = addc(lo, 1)
        wr(I, st, a[0], Ag(it.ty, 0, {0: Ag(it.f[0].ty, 0, {0: Ag(x.ty, 0, nx)})}))
        return some(I, dty, e)
    return none(I, dty)


@model("<std::str::Bytes<'_> as std::iter::Iterator>::nth")
def _(I, st, f, a, dty):
    it = rd(I, st, a[0])
    x = it.f[0].f[0]
    lo, hi = x.f[1], x.f[2]
    nx = dict(x.f)
    e = None
    nx[1] = hi
    if I.decide(st, ult(a[1], sub(hi, lo))):
        e = byte_at(I, st, x.f[0], add(lo, a[1]))
        nx[1] = addc(add(lo, a[1]), 1)
    wr(I, st, a[0], Ag(it.ty, 0, {0: Ag(it.f[0].ty, 0, {0: Ag(x.ty, 0, nx)})}))
    return none(I, dty) if e is None else some(I, dty, e)


def byte_at(I, st, s, i):
    if s.root[0] == 'raw' and not s.path:
        return I.raw_read(st, add(s.root[1], i), I.u8ty())
    if s.root[0] == 'str' and is_const(i):
        return const(s.root[1][cval(i)], 8)
    b, off = sub_base(str_of(I, st, s))
    return fn('byte', (b, st.facts.simp(add(off, i))), 8)


@model('core::str::<impl str>::chars')
def _(I, st, f, a, dty):
    return Ag(dty, 0, {'s': a[0], 'pos': u64(0), 'k': u64(0)})


@model('core::str::<impl str>::char_indices')
def _(I, st, f, a, dty):
    return Ag(dty, 0, {'s': a[0], 'pos': u64(0), 'k': u64(0)})


def char_next(I, st, ref):
    it = rd(I, st, ref)
    if not isinstance(it, Ag) or 's' not in it.f:
        raise Unsup('chars iter')
    r = it.f['s']
    n = st.facts.simp(r.meta)
    pos = st.facts.simp(it.f['pos'])
    if I.decide(st, ult(pos, n)):
        s = str_of(I, st, r)
        if all(p[0] == 'lit' and max(p[1], default=0) < 128 for p in s.p) and is_const(pos):
            c = const(b''.join(p[1] for p in s.p)[cval(pos)], 32)
            ln = u64(1)
        else:
            b, off = sub_base(s)
            c = fn('char', (b, add(off, pos)), 32)
            ln = fn('utf8len', (c,), 64)
            f2 = st.facts.assume(ult(c, const(0x110000, 32)))
            f2 = f2 and f2.assume(bneg(eq(ln, u64(0))))
            f2 = f2 and f2.assume(ult(ln, u64(5)))
            f2 = f2 and f2.assume(ule(add(pos, ln), n))
            if f2 is None:
                raise Dead()
            st.facts = f2
        f = dict(it.f)
        f['pos'] = add(pos, ln)
        f['k'] = addc(it.f['k'], 1)
        wr(I, st, ref, Ag(it.ty, 0, f))
        return pos, c
    return None


@model('std::char::methods::<impl char>::len_utf8', 'core::char::methods::<impl char>::len_utf8')
def _(I, st, f, a, dty):
    return fn('utf8len', (st.facts.simp(a[0]),), 64)


def digit_ranges(radix):
    r = [(48, 48 + min(radix, 10) - 1, 48)]
    if radix > 10:
        r.append((97, 97 + radix - 11, 87))
        r.append((65, 65 + radix - 11, 55))
    return r


def in_range(I, st, c, lo, hi):
    return I.decide(st, bneg(ult(c, const(lo, c[0])))) and I.decide(st, ult(c, const(hi + 1, c[0])))


def char_scalar(st, c):
    """a char made from a byte is compared as the byte"""
    c = st.facts.simp(c)
    d = single(c)
    if d is not None and d[0] == 'zext':
        return d[1]
    return c


@model('std::char::methods::<impl char>::to_digit', 'core::char::methods::<impl char>::to_digit')
def _(I, st, f, a, dty):
    radix = st.facts.simp(a[1])
    if not is_const(radix) or not 2 <= cval(radix) <= 36:
        return NotImplemented
    c = char_scalar(st, a[0])
    for lo, hi, off in digit_ranges(cval(radix)):
        if in_range(I, st, c, lo, hi):
            return some(I, dty, cast(addc(c, -off), 32, False))
    return none(I, dty)


@model('std::char::methods::<impl char>::is_digit', 'core::char::methods::<impl char>::is_digit')
def _(I, st, f, a, dty):
    radix = st.facts.simp(a[1])
    if not is_const(radix) or not 2 <= cval(radix) <= 36:
        return NotImplemented
    c = char_scalar(st, a[0])
    return any(in_range(I, st, c, lo, hi) for lo, hi, _ in digit_ranges(cval(radix)))


def ascii_class(name, *ranges):
    def h(I, st, f, a, dty):
        v = a[0]
        if isinstance(v, Ref):
            v = rd(I, st, v)
        if not isinstance(v, P):
            return NotImplemented
        c = char_scalar(st, v)
        return any(in_range(I, st, c, lo, hi) for lo, hi in ranges)
    for p in ('core::num::<impl u8>::', 'std::char::methods::<impl char>::', 'core::char::methods::<impl char>::'):
        model(p + name)(h)


ascii_class('is_ascii_digit', (48, 57))
ascii_class('is_ascii_hexdigit', (48, 57), (97, 102), (65, 70))
ascii_class('is_ascii_alphabetic', (97, 122), (65, 90))
ascii_class('is_ascii_lowercase', (97, 122))
ascii_class('is_ascii_uppercase', (65, 90))
ascii_class('is_ascii_alphanumeric', (48, 57), (97, 122), (65, 90))
ascii_class('is_ascii_graphic', (33, 126))
ascii_class('is_ascii_control', (0, 31), (127, 127))
ascii_class('is_ascii', (0, 127))
ascii_class('is_ascii_whitespace', (9, 10), (12, 13), (32, 32))


@model("<std::str::Chars<'a> as std::iter::Iterator>::next")
def _(I, st, f, a, dty):
    r = char_next(I, st, a[0])
    return none(I, dty) if r is None else some(I, dty, r[1])


@model("<std::str::CharIndices<'a> as std::iter::Iterator>::next")
def _(I, st, f, a, dty):
    r = char_next(I, st, a[0])
    if r is None:
        return none(I, dty)
    tty = I.T[dty]['variants'][variant_idx(I, dty, 'Some')]['fields'][0][1]
    return some(I, dty, Ag(tty, 0, {0: r[0], 1: r[1]}))


def closure_fn(I, f, depth=3):
    """body of the closure a generic library function calls"""
    I.p.compile(f)
    for t in f.targs or ():
        if I.T[t]['k'] == 'fndef' and 'inst' in I.T[t]:
            return I.p.fns[I.T[t]['inst']]
    for b in f.blocks or ():
        t = b[1]
        if t[0] == 'call' and isinstance(t[6], int):
            g = I.p.fns[t[6]]
            if '::{closure' in g.path and g.local:
                return g
    for b in f.blocks or ():
        t = b[1]
        if depth and t[0] == 'call' and isinstance(t[6], int) and not I.p.fns[t[6]].local:
            g = closure_fn(I, I.p.fns[t[6]], depth - 1)
            if g is not None:
                return g
    return None


def assume_result(I, st, g, args, want):
    """keep the states in which the pure closure yields the wanted enum variant"""
    rs = I.run(g, args, heap=dict(st.heap), facts=st.facts, mem=st.mem, nf=st.nf + 1000)
    ok = []
    for r in rs:
        if r.status != 'ret':
            raise Unsup('closure: %s %s' % (r.status, r.why))
        n = I.T[g.locals[0]]['variants'][I.variant_of(r, r.ret, g.locals[0])]['name']
        if n == want:
            ok.append(r)
    if not ok:
        raise Dead()
    if len(ok) > 1:
        for r in ok:
            for b, v in r.facts.lits.items():
                if st.facts.decide(b) is None:
                    raise Fork(b)
    st.facts = ok[0].facts


@model('core::slice::<impl [T]>::binary_search_by')
def _(I, st, f, a, dty):
    """contract of binary search over a slice ordered with respect to the comparison"""
    g = closure_fn(I, f)
    if g is None:
        raise Unsup('binary_search_by closure')
    cty = g.locals[1]
    cref = a[1]
    if I.T[cty]['k'] in ('ref', 'ptr') and not isinstance(cref, Ref):
        root = ('tmp', 'closure', len(st.events))
        st.heap[root] = a[1]
        I.rootty[root] = I.T[cty]['to']
        cref = Ref(root, (), None, I.T[cty]['to'])
    sl = a[0]
    n = st.facts.simp(sl.meta)
    nm = ('bsearch', I.valname(Ref(sl.root, sl.path, None, None)) if not sl.path else str(sl.path))
    i = sym((nm, 'ix'), 64)
    ety = I.T[g.locals[2]]['to']

    def el(k):
        p = sl.path
        if p and p[-1][0] == 'i' and p[-1][2] == 'off':
            return Ref(sl.root, p[:-1] + (('i', add(p[-1][1], k), ety),), None, ety)
        return Ref(sl.root, p + (('i', k, ety),), None, ety)

    def assume(b):
        x = st.facts.assume(b)
        if x is None:
            raise Dead()
        st.facts = x
    if I.decide(st, bop('bsearch', nm)):
        assume(ult(i, n))
        assume_result(I, st, g, [cref, el(i)], 'Equal')
        return Ag(dty, variant_idx(I, dty, 'Ok'), {0: i})
    assume(ule(i, n))
    if I.decide(st, bneg(eq(i, u64(0)))):
        assume_result(I, st, g, [cref, el(addc(i, -1))], 'Less')
    if I.decide(st, ult(i, n)):
        assume_result(I, st, g, [cref, el(i)], 'Greater')
    return Ag(dty, variant_idx(I, dty, 'Err'), {0: i})


@model('core::str::<impl str>::find', 'core::str::<impl str>::rfind')
def _(I, st, f, a, dty):
    s = str_of(I, st, a[0])
    pat = I.valname(a[1])
    b = bop('has', s.p, pat)
    if I.decide(st, b):
        pos = fn(f.base, (s.p, pat), 64)
        n = st.facts.simp(a[0].meta)
        f2 = st.facts.assume(ult(pos, n))
        f2 = f2 and f2.assume(bop('charb', s.p, pos))
        if f2 is None:
            raise Dead()
        st.facts = f2
        return some(I, dty, pos)
    return none(I, dty)


@model('core::str::<impl str>::from_utf8', 'std::str::from_utf8', 'core::str::converts::from_utf8')
def _(I, st, f, a, dty):
    s = str_of(I, st, a[0])
    if I.decide(st, bop('utf8', s.p)):
        vi = variant_idx(I, dty, 'Ok')
        to = I.T[I.T[dty]['variants'][vi]['fields'][0][1]]['to']
        return Ag(dty, vi, {0: Ref(a[0].root, a[0].path, a[0].meta, to)})
    vi = variant_idx(I, dty, 'Err')
    return Ag(dty, vi, {0: I.symval(('utf8err', s.p), I.T[dty]['variants'][vi]['fields'][0][1])})


@model('core::str::<impl str>::make_ascii_lowercase')
def _(I, st, f, a, dty):
    s = str_of(I, st, a[0])
    r = a[0]
    if r.root[0] == 'raw':
        raise Unsup('raw lowercase')
    path = r.path[:-1] if r.path and r.path[-1][0] == 'g' else r.path
    I.write(st, r.root, path, Str((('lower', s.p),)), None)
    return UNIT


@model('core::str::<impl str>::ends_with', 'core::str::<impl str>::starts_with', 'core::slice::<impl [T]>::starts_with', 'core::slice::<impl [T]>::ends_with', 'core::str::<impl str>::contains')
def _(I, st, f, a, dty):
    s = str_of(I, st, a[0])
    v = a[1]
    pat = str_of(I, st, v).p if isinstance(v, Ref) else I.valname(v)
    if f.base in ('ends_with', 'starts_with') and isinstance(v, P) and is_const(v) and cval(v) < 128:
        pat = (('lit', bytes([cval(v)])),)
    if f.base in ('ends_with', 'starts_with') and pat and I.decide(st, eq(strlen(I, st, s), u64(0))):
        return False
    r = bop(f.base, s.p, pat)
    if f.base == 'ends_with' and len(pat) == 1 and pat[0][0] == 'lit' and pat[0][1].isascii() and I.decide(st, r):
        # the text before an ASCII suffix ends on a character boundary
        n, k = strlen(I, st, s), len(pat[0][1])
        b, off = sub_base(s)
        file_assume(st, ule(u64(k), n), bop('charb', b, st.facts.simp(add(off, addc(n, -k)))))
    return r


@model('core::str::<impl str>::trim', 'core::str::<impl str>::trim_end', 'core::str::<impl str>::trim_start')
def _(I, st, f, a, dty):
    s = str_of(I, st, a[0])
    n = fn('trimlen', (f.base, s.p), 64)
    off = fn('trimoff', (f.base, s.p), 64)
    return subrange(I, st, a[0], off, add(off, n), None, a[0].to)


# ------------------------------------------------------------------ mem / ptr

@model('std::mem::replace', 'core::mem::replace')
def _(I, st, f, a, dty):
    o = rd(I, st, a[0])
    wr(I, st, a[0], a[1])
    return o


@model('std::mem::swap', 'core::mem::swap')
def _(I, st, f, a, dty):
    x, y = rd(I, st, a[0]), rd(I, st, a[1])
    wr(I, st, a[0], y)
    wr(I, st, a[1], x)
    return UNIT


@model('std::mem::take')
def _(I, st, f, a, dty):
    o = rd(I, st, a[0])
    t = I.T[f.targs[0]]
    if t['s'].endswith('String'):
        wr(I, st, a[0], Str(()))
    elif t.get('name', '').endswith('Option'):
        wr(I, st, a[0], none(I, f.targs[0]))
    else:
        return NotImplemented
    return o


@model('std::option::Option::<T>::take')
def _(I, st, f, a, dty):
    o = rd(I, st, a[0])
    wr(I, st, a[0], none(I, dty))
    return o


@model('std::ptr::read', 'core::ptr::read', 'std::ptr::read_unaligned', 'std::ptr::const_ptr::<impl *const T>::read', 'std::ptr::mut_ptr::<impl *mut T>::read', 'std::ptr::read_volatile')
def _(I, st, f, a, dty):
    return rd(I, st, a[0], dty)


@intr('read_via_copy', 'volatile_load', 'unaligned_volatile_load')
def _(I, st, f, a, dty):
    return rd(I, st, a[0], dty)


@model('std::ptr::write', 'core::ptr::write', 'std::ptr::write_unaligned', 'std::ptr::mut_ptr::<impl *mut T>::write', 'std::ptr::write_volatile')
def _(I, st, f, a, dty):
    wr(I, st, a[0], a[1], f.targs[0])
    return UNIT


@intr('write_via_move')
def _(I, st, f, a, dty):
    wr(I, st, a[0], a[1], f.targs[0])
    return UNIT


def _bulk(I, st, f, src, dst, n, kind):
    sz = I.T[f.targs[0]].get('size', 1)
    if src.root[0] == 'raw' and dst.root[0] == 'raw':
        s, d, k = st.facts.simp(src.root[1]), st.facts.simp(dst.root[1]), mulc(st.facts.simp(n), sz)
        if kind == 'move' and sz == 1 and I.unroll:
            # followed byte by byte like a loop over the range, as far as loops are followed
            for n in range(I.unroll + 1):
                if I.decide(st, eq(k, const(n, 64))):
                    break
            else:
                raise Beyond()
            u8 = f.targs[0]
            v = [rd(I, st, Ref(('raw', addc(s, j)), (), None, u8), u8) for j in range(n)]
            for j in range(n):
                wr(I, st, Ref(('raw', addc(d, j)), (), None, u8), v[j], u8)
            return UNIT
        I.event(st, ('load', s, k))
        I.event(st, ('copy', d, k, s, kind))
        st.mem = st.mem + (('copy', d, k, s, kind),)
        return UNIT
    if dst.root[0] == 'raw':
        d, k = st.facts.simp(dst.root[1]), mulc(st.facts.simp(n), sz)
        content = str_of(I, st, Ref(src.root, src.path[:-1] if src.path and src.path[-1][0] == 'i' else src.path, n, None))
        I.event(st, ('store', d, k, content))
        st.mem = st.mem + (('ws', d, k, content),)
        return UNIT
    raise Unsup('ptr copy')


@model('std::ptr::copy', 'core::ptr::copy')
def _(I, st, f, a, dty):
    return _bulk(I, st, f, a[0], a[1], a[2], 'move')


@intr('copy')
def _(I, st, f, a, dty):
    return _bulk(I, st, f, a[0], a[1], a[2], 'move')


@model('std::ptr::copy_nonoverlapping', 'core::ptr::copy_nonoverlapping')
def _(I, st, f, a, dty):
    return _bulk(I, st, f, a[0], a[1], a[2], 'nonoverlap')


@intr('copy_nonoverlapping')
def _(I, st, f, a, dty):
    return _bulk(I, st, f, a[0], a[1], a[2], 'nonoverlap')


@model('core::slice::<impl [T]>::copy_from_slice')
def _(I, st, f, a, dty):
    if not I.decide(st, eq(a[0].meta, a[1].meta)):
        raise PanicPath('copy_from_slice', 'length mismatch')
    return _bulk(I, st, f, a[1], a[0], a[1].meta, 'nonoverlap')


@model('std::ptr::mut_ptr::<impl *mut T>::offset', 'std::ptr::const_ptr::<impl *const T>::offset', 'std::ptr::mut_ptr::<impl *mut T>::add',
       'std::ptr::const_ptr::<impl *const T>::add', 'std::ptr::mut_ptr::<impl *mut T>::wrapping_add', 'std::ptr::const_ptr::<impl *const T>::wrapping_add',
       'std::ptr::mut_ptr::<impl *mut T>::wrapping_offset', 'std::ptr::const_ptr::<impl *const T>::wrapping_offset')
def _(I, st, f, a, dty):
    r = a[0]
    if isinstance(r, Ref) and r.to is None:
        r = Ref(r.root, r.path, r.meta, f.targs[0])
    return I.ptr_add(st, r, a[1])


@model('std::ptr::mut_ptr::<impl *mut T>::is_null', 'std::ptr::const_ptr::<impl *const T>::is_null')
def _(I, st, f, a, dty):
    if a[0].root[0] == 'raw':
        return eq(a[0].root[1], u64(0))
    return False


@model('std::mem::size_of', 'core::mem::size_of')
def _(I, st, f, a, dty):
    return u64(I.T[f.targs[0]]['size'])


@intr('size_of')
def _(I, st, f, a, dty):
    return u64(I.T[f.targs[0]]['size'])


@model('std::mem::align_of')
def _(I, st, f, a, dty):
    return u64(I.T[f.targs[0]]['align'])


@intr('align_of', 'min_align_of')
def _(I, st, f, a, dty):
    return u64(I.T[f.targs[0]]['align'])


@model('std::mem::forget', 'std::mem::drop', 'core::mem::drop')
def _(I, st, f, a, dty):
    return UNIT


@intr('forget')
def _(I, st, f, a, dty):
    return UNIT


@intr('transmute', 'transmute_unchecked')
def _(I, st, f, a, dty):
    return I.transmute(st, a[0], f.targs[0], dty)


@intr('discriminant_value')
def _(I, st, f, a, dty):
    w = I.scalar(dty)[1]
    return I.discr_of_value(st, rd(I, st, a[0]), f.targs[0], w)


@intr('cold_path', 'assert_inhabited', 'assert_zero_valid', 'assert_mem_uninitialized_valid')
def _(I, st, f, a, dty):
    return UNIT


@intr('likely', 'unlikely', 'black_box')
def _(I, st, f, a, dty):
    return a[0]


@model('std::hint::black_box', 'core::hint::black_box', 'core::convert::identity', 'std::convert::identity')
def _(I, st, f, a, dty):
    return a[0]


@intr('is_val_statically_known')
def _(I, st, f, a, dty):
    return False


@intr('select_unpredictable')
def _(I, st, f, a, dty):
    return a[1] if I.decide(st, a[0]) else a[2]


@intr('caller_location')
def _(I, st, f, a, dty):
    return Sym(('loc',), dty)


@intr('assume')
def _(I, st, f, a, dty):
    f2 = st.facts.assume(a[0])
    if f2 is None:
        raise Dead()
    st.facts = f2
    return UNIT


# ------------------------------------------------------------------ integer methods (inlined library bodies reach BinaryOps;
# these are the ones whose bodies are awkward)

def ity(I, f, a, dty):
    t = f.targs[0] if f.targs else None
    return t


def _int_of_path(f):
    import re
    m = re.search(r'<impl ([iu](?:8|16|32|64|128|size))>', f.path)
    return m.group(1) if m else None


def int_model(name):
    def d(fnc):
        for t in ('i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize'):
            def h(I, st, f, a, dty, t=t):
                return fnc(I, st, a, dty, t[0] == 'i')
            M['core::num::<impl %s>::%s' % (t, name)] = h
        return fnc
    return d


@int_model('wrapping_add')
def _(I, st, a, dty, s):
    return add(a[0], a[1])


@int_model('wrapping_sub')
def _(I, st, a, dty, s):
    return sub(a[0], a[1])


@int_model('wrapping_mul')
def _(I, st, a, dty, s):
    return mul(a[0], a[1])


@int_model('wrapping_neg')
def _(I, st, a, dty, s):
    return neg(a[0])


@int_model('unchecked_add')
def _(I, st, a, dty, s):
    return add(a[0], a[1])


@int_model('unchecked_sub')
def _(I, st, a, dty, s):
    return sub(a[0], a[1])


@int_model('min_value')
def _(I, st, a, dty, s):
    w = I.scalar(dty)[1]
    return const(1 << (w - 1) if s else 0, w)


@int_model('max_value')
def _(I, st, a, dty, s):
    w = I.scalar(dty)[1]
    return const((1 << (w - 1)) - 1 if s else (1 << w) - 1, w)


@int_model('is_negative')
def _(I, st, a, dty, s):
    return slt(a[0], const(0, a[0][0]))


@int_model('is_positive')
def _(I, st, a, dty, s):
    return slt(const(0, a[0][0]), a[0])


@int_model('signum')
def _(I, st, a, dty, s):
    w = a[0][0]
    if I.decide(st, slt(a[0], const(0, w))):
        return const(-1, w)
    return const(0, w) if I.decide(st, eq(a[0], const(0, w))) else const(1, w)


def _chk(op):
    def h(I, st, a, dty, s):
        o = sat_overflow(op, s, st.facts.simp(a[0]), st.facts.simp(a[1]))
        if I.decide(st, o):
            return none(I, dty)
        return some(I, dty, {'Add': add, 'Sub': sub, 'Mul': mul}[op](a[0], a[1]))
    return h


int_model('checked_add')(_chk('Add'))
int_model('checked_sub')(_chk('Sub'))
int_model('checked_mul')(_chk('Mul'))


@int_model('checked_neg')
def _(I, st, a, dty, s):
    w = a[0][0]
    if s:
        if I.decide(st, eq(a[0], const(1 << (w - 1), w))):
            return none(I, dty)
        return some(I, dty, neg(a[0]))
    if I.decide(st, eq(a[0], const(0, w))):
        return some(I, dty, a[0])
    return none(I, dty)


def _ovf(op):
    def h(I, st, a, dty, s):
        return Ag(dty, 0, {0: {'Add': add, 'Sub': sub, 'Mul': mul}[op](a[0], a[1]), 1: sat_overflow(op, s, a[0], a[1])})
    return h


int_model('overflowing_add')(_ovf('Add'))
int_model('overflowing_sub')(_ovf('Sub'))
int_model('overflowing_mul')(_ovf('Mul'))


@int_model('saturating_add')
def _(I, st, a, dty, s):
    w = a[0][0]
    if I.decide(st, sat_overflow('Add', s, a[0], a[1])):
        if not s:
            return const(-1, w)
        return const(1 << (w - 1), w) if I.decide(st, slt(a[0], const(0, w))) else const((1 << (w - 1)) - 1, w)
    return add(a[0], a[1])


@int_model('saturating_sub')
def _(I, st, a, dty, s):
    w = a[0][0]
    if I.decide(st, sat_overflow('Sub', s, a[0], a[1])):
        if not s:
            return const(0, w)
        return const(1 << (w - 1), w) if I.decide(st, slt(a[0], const(0, w))) else const((1 << (w - 1)) - 1, w)
    return sub(a[0], a[1])


def _divm(kind):
    def h(I, st, a, dty, s):
        w = a[0][0]
        b = st.facts.simp(a[1])
        x = st.facts.simp(a[0])
        if I.decide(st, eq(b, const(0, w))):
            raise PanicPath('DivisionByZero', kind)
        if s and I.decide(st, eq(b, const(-1, w))):
            return neg(x) if 'div' in kind else const(0, w)
        if 'div' in kind:
            return sdiv(x, b) if s else udiv(x, b)
        return srem(x, b) if s else urem(x, b)
    return h


int_model('wrapping_div')(_divm('div'))
int_model('wrapping_rem')(_divm('rem'))


def _odivm(kind):
    g = _divm(kind)

    def h(I, st, a, dty, s):
        w = a[0][0]
        o = False
        if s and I.decide(st, eq(st.facts.simp(a[1]), const(-1, w))):
            o = eq(st.facts.simp(a[0]), const(1 << (w - 1), w))
        return Ag(dty, 0, {0: g(I, st, a, dty, s), 1: o})
    return h


int_model('overflowing_div')(_odivm('div'))
int_model('overflowing_rem')(_odivm('rem'))


def _cdivm(kind):
    g = _divm(kind)

    def h(I, st, a, dty, s):
        w = a[0][0]
        if I.decide(st, eq(st.facts.simp(a[1]), const(0, w))):
            return none(I, dty)
        if s and I.decide(st, eq(st.facts.simp(a[1]), const(-1, w))) and I.decide(st, eq(st.facts.simp(a[0]), const(1 << (w - 1), w))):
            return none(I, dty)
        return some(I, dty, g(I, st, a, dty, s))
    return h


int_model('checked_div')(_cdivm('div'))
int_model('checked_rem')(_cdivm('rem'))


@int_model('wrapping_abs')
def _(I, st, a, dty, s):
    w = a[0][0]
    return neg(a[0]) if I.decide(st, slt(a[0], const(0, w))) else a[0]


@int_model('unsigned_abs')
def _(I, st, a, dty, s):
    w = a[0][0]
    return neg(a[0]) if I.decide(st, slt(a[0], const(0, w))) else a[0]


def _shift(left):
    def h(I, st, a, dty, s):
        w = a[0][0]
        n = band(cast(a[1], w, False) if a[1][0] < w else trunc(a[1], w) if a[1][0] > w else a[1], const(w - 1, w))
        n = st.facts.simp(n)
        return shl(a[0], n) if left else (ashr(a[0], n) if s else lshr(a[0], n))
    return h


int_model('wrapping_shl')(_shift(True))
int_model('wrapping_shr')(_shift(False))


def _cshift(left):
    g = _shift(left)

    def h(I, st, a, dty, s):
        w = a[0][0]
        if I.decide(st, ult(a[1], const(w, a[1][0]))):
            return some(I, dty, g(I, st, a, dty, s))
        return none(I, dty)
    return h


int_model('checked_shl')(_cshift(True))
int_model('checked_shr')(_cshift(False))


def _oshift(left):
    g = _shift(left)

    def h(I, st, a, dty, s):
        return Ag(dty, 0, {0: g(I, st, a, dty, s), 1: bneg(ult(a[1], const(a[0][0], a[1][0])))})
    return h


int_model('overflowing_shl')(_oshift(True))
int_model('overflowing_shr')(_oshift(False))


@model('std::cmp::impls::<impl std::cmp::Ord for usize>::min', 'std::cmp::impls::<impl std::cmp::Ord for u8>::min', 'std::cmp::impls::<impl std::cmp::Ord for u64>::min')
def _(I, st, f, a, dty):
    return a[0] if I.decide(st, ule(a[0], a[1])) else a[1]


@model('std::cmp::impls::<impl std::cmp::Ord for usize>::max', 'std::cmp::impls::<impl std::cmp::Ord for u64>::max')
def _(I, st, f, a, dty):
    return a[1] if I.decide(st, ule(a[0], a[1])) else a[0]


@intr('saturating_add')
def _(I, st, f, a, dty):
    return NotImplemented


@intr('integer_max')
def _(I, st, f, a, dty):
    return NotImplemented


# ------------------------------------------------------------------ panics

@model('core::panicking::panic', 'core::panicking::panic_nounwind', 'std::rt::panic_fmt', 'core::panicking::panic_fmt', 'std::option::unwrap_failed',
       'std::option::expect_failed', 'std::result::unwrap_failed', 'core::slice::index::slice_index_fail', 'core::str::slice_error_fail',
       'std::rt::begin_panic', 'core::panicking::panic_bounds_check', 'core::panicking::panic_const::panic_const_div_by_zero',
       'core::panicking::assert_failed', 'core::panicking::panic_display', 'alloc::raw_vec::handle_error', 'core::panicking::panic_explicit',
       'std::process::abort', 'core::panicking::panic_str_2015', 'core::panicking::unreachable_display', 'std::process::exit')
def _(I, st, f, a, dty):
    raise PanicPath(f.path.split('::')[-1], '')


# ------------------------------------------------------------------ formatting

def _newarg(kind):
    def h(I, st, f, a, dty):
        v = a[0]
        x = v
        n = 0
        while isinstance(x, Ref) and n < 4:
            if x.meta is not None:
                x = str_of(I, st, x)
                break
            to = x.to
            if I.T[to]['k'] == 'adt' and I.T[to]['s'].endswith('string::String'):
                x = str_of(I, st, strref(I, st, x, None))
                break
            x = I.read(st, x.root, x.path, to)
            n += 1
        if isinstance(x, (P, B)):
            x = st.facts.simp(x)
        t = I.T[f.targs[0]]['s'] if f.targs else '?'
        return Ag(dty, 0, {'arg': ('fmtarg', kind, I.valname(x), t.replace('&', '').replace('mut ', ''))})
    return h


for _k in ('display', 'debug', 'lower_hex', 'upper_hex', 'binary', 'octal', 'lower_exp', 'upper_exp', 'pointer'):
    M["core::fmt::rt::Argument::<'_>::new_" + _k] = _newarg(_k)


@model("core::fmt::rt::Argument::<'_>::from_usize", "core::fmt::rt::Argument::<'a>::from_usize")
def _(I, st, f, a, dty):
    n = rd(I, st, a[0])
    if isinstance(n, P):
        n = st.facts.simp(n)
        if not is_const(n) and st.facts.decide(ult(n, const(FEW, 64))) is True:
            # a small range of widths: one path for each
            for k in range(FEW):
                b = eq(n, const(k, 64))
                r = st.facts.decide(b)
                if r is True:
                    n = const(k, 64)
                    break
                if r is None:
                    raise Fork(b)
    return Ag(dty, 0, {'arg': ('fmtarg', 'count', I.valname(n), 'usize')})


@model("std::fmt::Arguments::<'a>::new", "std::fmt::Arguments::<'a>::new_v1", "std::fmt::Arguments::<'a>::new_const")
def _(I, st, f, a, dty):
    tmpl = a[0]
    t = None
    if isinstance(tmpl, Ref) and tmpl.root[0] == 'str':
        t = tmpl.root[1]
    args = ()
    if len(a) > 1:
        arr = rd(I, st, a[1])
        if isinstance(arr, Arr):
            args = tuple(v.f['arg'] for _, v in arr.w)
        else:
            raise Unsup('fmt args')
    return Ag(dty, 0, {'fmt': (t, args)})


@model("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::from_str_nonconst")
def _(I, st, f, a, dty):
    return Ag(dty, 0, {'lit': str_of(I, st, a[0])})


def fmt_pieces(v):
    if 'lit' in v.f:
        return v.f['lit'].p
    t, args = v.f['fmt']
    return decode_template(t, args)


FEW = 33


def decode_template(t, args):
    """rustc's byte-coded format template -> pieces (literal runs and ('arg', spec, value))"""
    out = []
    i = 0
    nxt = 0
    try:
        while i < len(t):
            b = t[i]
            i += 1
            if b == 0:
                break
            if b < 0x80:
                out.append(('lit', t[i:i + b]))
                i += b
            elif b == 0x80:
                n = t[i] | t[i + 1] << 8
                i += 2
                out.append(('lit', t[i:i + n]))
                i += n
            else:
                flags = width = prec = None
                if b & 1:
                    flags = int.from_bytes(t[i:i + 4], 'little')
                    i += 4
                if b & 2:
                    width = t[i] | t[i + 1] << 8
                    i += 2
                if b & 4:
                    prec = t[i] | t[i + 1] << 8
                    i += 2
                if b & 8:
                    nxt = t[i] | t[i + 1] << 8
                    i += 2
                wa = pa = None
                if b & 0x10 and width is not None:
                    wa = args[width]
                    width = None
                if b & 0x20 and prec is not None:
                    pa = args[prec]
                    prec = None
                if flags is not None:
                    if flags & 1 << 28 and prec is None and pa is None:
                        prec = 0
                    if flags & 1 << 27 and width is None and wa is None:
                        width = 0
                    flags &= ~(3 << 27)
                    if flags == 0x60000020:
                        flags = None
                out.append(('arg', (flags, width, prec, wa, pa), args[nxt]))
                nxt += 1
        return norm_fmt(out)
    except Exception:
        return (('fmt', t, args),)


def norm_fmt(out):
    r = []
    for p in out:
        if p[0] == 'arg' and p[1] == (None, None, None, None, None):
            kind, v, ty = p[2][1:]
            if kind == 'display' and isinstance(v, tuple) and v and v[0] == 'str':
                r.extend(v[1])
                continue
            if kind == 'display' and ty == 'char' and isinstance(v, P):
                r.append(('ch', v))
                continue
        if p[0] == 'arg' and (p[1][3] is not None or p[1][4] is not None):
            fl, w, pr, wa, pa = p[1]
            if wa is not None and isinstance(wa[2], P) and is_const(wa[2]):
                w, wa = cval(wa[2]), None
            if pa is not None and isinstance(pa[2], P) and is_const(pa[2]):
                pr, pa = cval(pa[2]), None
            p = ('arg', (fl, w, pr, wa, pa)) + tuple(p[2:])
        r.append(p)
    return norm_pieces(r)


@model('std::fmt::Write::write_fmt', "std::fmt::Formatter::<'a>::write_fmt", '<std::string::String as std::fmt::Write>::write_fmt')
def _(I, st, f, a, dty):
    t = a[0]
    v = I.read(st, t.root, t.path, t.to)
    if isinstance(v, (Str,)) or (isinstance(v, Sym) and (I.T[v.ty]['s'].endswith('String') or 'fmt::Formatter' in I.T[v.ty]['s'])):
        append(I, st, t, fmt_pieces(a[1]))
        return Ag(dty, variant_idx(I, dty, 'Ok'), {0: UNIT})
    raise Unsup('write_fmt to %r' % (v,))


@model('std::fmt::format', 'alloc::fmt::format', 'std::fmt::format::format_inner')
def _(I, st, f, a, dty):
    return Str(norm_pieces(fmt_pieces(a[0])))


@model('std::io::_print', 'std::io::_eprint')
def _(I, st, f, a, dty):
    I.event(st, ('print', 'err' if f.path.endswith('_eprint') else 'out', tuple(fmt_pieces(a[0]))))
    return UNIT


# ------------------------------------------------------------------ floats: pure uninterpreted functions

def fpure(name, *paths):
    def h(I, st, f, a, dty):
        k = I.T[dty].get('k')
        args = tuple(x for x in a)
        if name in ('min', 'max'):
            args = tuple(sorted(args, key=str))
        if k == 'float':
            return Fl((name,) + args)
        if k == 'bool':
            return bop('f' + name, *args)
        if k == 'tuple':
            return Ag(dty, 0, {i: Fl((name + str(i),) + args) for i in range(len(I.T[dty]['elems']))})
        raise Unsup('float fn ' + name)
    for p in paths:
        M[p] = h


for _n in ('acos', 'asin', 'atan', 'atan2', 'ceil', 'cos', 'floor', 'powf', 'powi', 'round', 'sin', 'sqrt', 'tan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh',
           'atanh', 'exp', 'ln', 'log10', 'log2', 'exp_m1', 'ln_1p', 'exp2', 'cbrt', 'hypot', 'trunc', 'fract', 'mul_add', 'round_ties_even', 'abs', 'min',
           'max', 'to_degrees', 'to_radians', 'recip', 'signum', 'copysign', 'rem_euclid', 'div_euclid', 'log', 'is_nan', 'is_finite', 'is_infinite', 'is_sign_negative',
           'is_sign_positive', 'minimum', 'maximum', 'clamp', 'total_cmp'):
    fpure(_n, 'std::f64::<impl f64>::' + _n, 'core::f64::<impl f64>::' + _n, 'core::num::<impl f64>::' + _n)


@model('std::f64::<impl f64>::sin_cos')
def _(I, st, f, a, dty):
    return Ag(dty, 0, {0: Fl(('sin', a[0])), 1: Fl(('cos', a[0]))})


@model('<f64 as std::default::Default>::default')
def _(I, st, f, a, dty):
    return Fl(('c', 0))


# ------------------------------------------------------------------ hibitset

def bs_state(I, st, ref):
    v = rd(I, st, ref)
    return v


@model('rtforth::hibitset::BitSet::contains', 'hibitset::BitSet::contains')
def _(I, st, f, a, dty):
    v = rd(I, st, a[0])
    w = ()
    base = v
    if isinstance(v, Ag):
        w = v.f.get('w', ())
        base = v.f.get('base')
    for i, b in reversed(w):
        if I.decide(st, eq(i, a[1])):
            return b
    if base == 'empty':
        return False
    return bop('bit', base.name, a[1])


@model('rtforth::hibitset::BitSet::add', 'rtforth::hibitset::BitSet::remove', 'hibitset::BitSet::add', 'hibitset::BitSet::remove')
def _(I, st, f, a, dty):
    v = rd(I, st, a[0])
    w = ()
    base = v
    if isinstance(v, Ag):
        w = v.f.get('w', ())
        base = v.f.get('base')
    if f.base == 'add':
        # hibitset panics above its maximum id
        if not I.decide(st, ult(a[1], const(1 << 24, 32))):
            raise PanicPath('BitSet::add', 'id too large')
    old = fn('bitold', (str(a[0]), a[1], len(st.events)), 8)
    ty = v.ty
    wr(I, st, a[0], Ag(ty, None, {'w': tuple(x for x in w if st.facts.decide(eq(x[0], a[1]), False) is not True) + ((st.facts.simp(a[1]), f.base == 'add'),), 'base': base}))
    return bneg(eq(old, const(0, 8)))


@model('rtforth::hibitset::BitSet::clear', 'hibitset::BitSet::clear')
def _(I, st, f, a, dty):
    v = rd(I, st, a[0])
    wr(I, st, a[0], Ag(v.ty, None, {'w': (), 'base': 'empty'}))
    return UNIT


@model('rtforth::hibitset::BitSet::with_capacity', 'rtforth::hibitset::BitSet::new')
def _(I, st, f, a, dty):
    return Ag(dty, None, {'w': (), 'base': 'empty'})


@model('<rtforth::hibitset::BitSet as rtforth::hibitset::BitSetLike>::is_empty', 'rtforth::hibitset::BitSetLike::is_empty')
def _(I, st, f, a, dty):
    v = rd(I, st, a[0])
    return bop('bsempty', I.valname(v))


def _with_bsops():
    pass


# ------------------------------------------------------------------ bit sets

def _bs_name(v):
    if isinstance(v, Sym):
        return v.name
    raise Unsup('bit set %r' % (v,))


def bs_contains(I, st, nm, n):
    """membership after a sequence of additions and removals"""
    n = st.facts.simp(n)
    while isinstance(nm, tuple) and nm and nm[0] == 'bits':
        _, base, op, m = nm
        if op == 'clear':
            return False
        if I.decide(st, eq(st.facts.simp(m), n)):
            return op == 'add'
        nm = base
    return I.decide(st, bop('bit', nm, n))


def bs_update(I, st, ref, op, n):
    v = rd(I, st, ref)
    nm = ('bits', _bs_name(v), op, n) if op != 'clear' else ('bits', None, 'clear', None)
    wr(I, st, ref, Sym(nm, v.ty))


@model('rtforth::hibitset::BitSet::contains', 'hibitset::BitSet::contains')
def _(I, st, f, a, dty):
    return bs_contains(I, st, _bs_name(rd(I, st, a[0])), a[1])


@model('rtforth::hibitset::BitSet::add', 'hibitset::BitSet::add')
def _(I, st, f, a, dty):
    was = bs_contains(I, st, _bs_name(rd(I, st, a[0])), a[1])
    if not was:
        bs_update(I, st, a[0], 'add', st.facts.simp(a[1]))
    return was


@model('rtforth::hibitset::BitSet::remove', 'hibitset::BitSet::remove')
def _(I, st, f, a, dty):
    was = bs_contains(I, st, _bs_name(rd(I, st, a[0])), a[1])
    if was:
        bs_update(I, st, a[0], 'del', st.facts.simp(a[1]))
    return was


@model('rtforth::hibitset::BitSet::clear', 'hibitset::BitSet::clear')
def _(I, st, f, a, dty):
    bs_update(I, st, a[0], 'clear', None)
    return UNIT


@model('<rtforth::hibitset::BitSet as rtforth::hibitset::BitSetLike>::layer3', '<hibitset::BitSet as hibitset::BitSetLike>::layer3')
def _(I, st, f, a, dty):
    nm = _bs_name(rd(I, st, a[0]))
    if nm[0] == 'bits' and nm[2] == 'clear':
        return u64(0)
    return fn('anybit', (nm,), 64)


# ------------------------------------------------------------------ host memory

@model('page_size::get')
def _(I, st, f, a, dty):
    return sym(('pagesize',), 64)


@model('std::alloc::Layout::from_size_align')
def _(I, st, f, a, dty):
    ok, er = variant_idx(I, dty, 'Ok'), variant_idx(I, dty, 'Err')
    vs = I.T[dty]['variants']
    if I.decide(st, bop('layoutok', a[0], a[1])):
        return Ag(dty, ok, {0: I.symval(('layout', a[0], a[1]), vs[ok]['fields'][0][1])})
    return Ag(dty, er, {0: I.symval(('layouterr',), vs[er]['fields'][0][1])})


@model('std::alloc::alloc_zeroed', 'std::alloc::alloc')
def _(I, st, f, a, dty):
    k = sum(1 for e in st.events if e[0][0] == 'HOSTALLOC')
    I.event(st, ('HOSTALLOC', f.base.endswith('zeroed'), a[0], k))
    return Ref(('raw', sym(('hostmem', k), 64)), (), None, I.T[dty]['to'])


@model('std::alloc::dealloc')
def _(I, st, f, a, dty):
    I.event(st, ('HOSTFREE', a[0], a[1]))
    return UNIT


# ------------------------------------------------------------------ host files: every call is an ordered observable event

def file_event(I, st, op, *args):
    k = sum(1 for e in st.events if e[0][0] == 'FILE')
    I.event(st, ('FILE', op) + args)
    return k


def file_result(I, st, k, dty, val=None):
    """Ok(value of the k-th host call) or Err(its error)"""
    ok, er = variant_idx(I, dty, 'Ok'), variant_idx(I, dty, 'Err')
    vs = I.T[dty]['variants']
    if I.decide(st, bop('fileok', u64(k))):
        fs = vs[ok]['fields']
        return Ag(dty, ok, {0: val(fs[0][1]) if val else I.symval(('fileval', k), fs[0][1])})
    return Ag(dty, er, {0: I.symval(('fileerr', k), vs[er]['fields'][0][1])})


def file_assume(st, *bs):
    for b in bs:
        f = st.facts.assume(b)
        if f is None:
            raise Dead()
        st.facts = f


def deref(I, st, r):
    """through references to references"""
    while isinstance(r, Ref) and r.meta is None and r.to is not None and I.T.get(r.to, {}).get('k') == 'ref':
        r = rd(I, st, r)
    return r


def fname(I, st, r):
    v = rd(I, st, r)
    return I.valname(v)


def path_of(I, st, r):
    r = deref(I, st, r)
    if isinstance(r, Ref) and r.meta is None:
        return str_of(I, st, rd(I, st, r))
    return str_of(I, st, r)


def open_opts(I, st, ref):
    v = rd(I, st, ref)
    if isinstance(v, Sym) and v.name[0] == 'openopts':
        return dict(v.name[1])
    raise Unsup('open options')


@model('std::fs::OpenOptions::new')
def _(I, st, f, a, dty):
    return Sym(('openopts', ()), dty)


@model(*['std::fs::OpenOptions::' + x for x in ('read', 'write', 'append', 'truncate', 'create', 'create_new')])
def _(I, st, f, a, dty):
    o = open_opts(I, st, a[0])
    if I.decide(st, a[1]):
        o[f.base] = True
    else:
        o.pop(f.base, None)
    wr(I, st, a[0], Sym(('openopts', tuple(sorted(o.items()))), a[0].to))
    return a[0]


def do_open(I, st, path, flags, dty):
    k = file_event(I, st, 'open', path, tuple(sorted(flags)))
    return file_result(I, st, k, dty)


@model('std::fs::OpenOptions::open')
def _(I, st, f, a, dty):
    return do_open(I, st, path_of(I, st, a[1]), open_opts(I, st, a[0]), dty)


@model('std::fs::File::open', 'std::fs::File::create', 'std::fs::File::create_new')
def _(I, st, f, a, dty):
    return do_open(I, st, path_of(I, st, a[0]), {'open': ['read'], 'create': ['write', 'create', 'truncate'],
                                                 'create_new': ['read', 'write', 'create_new']}[f.base], dty)


@model('std::fs::remove_file', 'std::fs::remove_dir', 'std::fs::remove_dir_all', 'std::fs::create_dir')
def _(I, st, f, a, dty):
    k = file_event(I, st, f.base, path_of(I, st, a[0]))
    return file_result(I, st, k, dty, lambda t: UNIT)


@model('std::fs::File::metadata')
def _(I, st, f, a, dty):
    return file_result(I, st, file_event(I, st, 'metadata', fname(I, st, a[0])), dty)


@model('std::fs::Metadata::len')
def _(I, st, f, a, dty):
    return fn('metalen', (fname(I, st, a[0]),), 64)


@model('<std::fs::File as std::io::Seek>::seek', "<&'_ std::fs::File as std::io::Seek>::seek", '<&std::fs::File as std::io::Seek>::seek')
def _(I, st, f, a, dty):
    h = deref(I, st, a[0])
    t = I.T[a[1].ty] if isinstance(a[1], Ag) else None
    if t is None:
        raise Unsup('seek')
    v = t['variants'][a[1].var]['name']
    k = file_event(I, st, 'seek', fname(I, st, h), v, a[1].f[0])
    return file_result(I, st, k, dty)


@model('std::io::Seek::stream_position', 'std::io::Seek::rewind')
def _(I, st, f, a, dty):
    h = deref(I, st, a[0])
    k = file_event(I, st, 'seek', fname(I, st, h), 'Current' if f.base == 'stream_position' else 'Start', u64(0))
    return file_result(I, st, k, dty, None if f.base == 'stream_position' else lambda t: UNIT)


@model('std::fs::File::set_len')
def _(I, st, f, a, dty):
    return file_result(I, st, file_event(I, st, 'set_len', fname(I, st, a[0]), a[1]), dty, lambda t: UNIT)


@model('std::fs::File::sync_all', 'std::fs::File::sync_data', '<std::fs::File as std::io::Write>::flush')
def _(I, st, f, a, dty):
    return file_result(I, st, file_event(I, st, f.base, fname(I, st, a[0])), dty, lambda t: UNIT)


def raw_buf(I, st, b):
    b = deref(I, st, b)
    if isinstance(b, Ref) and b.root[0] == 'raw' and not b.path:
        return st.facts.simp(b.root[1]), st.facts.simp(b.meta)
    raise Unsup('file buffer')


def write_mem(I, st, d, n, tag):
    st.mem = st.mem + (('copy', d, n, tag, 'file'),)


@model('<std::fs::File as std::io::Read>::read', '<std::fs::File as std::io::Read>::read_exact', 'std::io::Read::read_exact',
       "<&std::fs::File as std::io::Read>::read")
def _(I, st, f, a, dty):
    h = deref(I, st, a[0])
    d, n = raw_buf(I, st, a[1])
    k = file_event(I, st, f.base, fname(I, st, h), d, n)
    if f.base == 'read_exact':
        write_mem(I, st, d, n, ('file', k))
        return file_result(I, st, k, dty, lambda t: UNIT)
    r = file_result(I, st, k, dty)
    if variant_idx(I, dty, 'Ok') == r.var:
        file_assume(st, ule(r.f[0], n))
        write_mem(I, st, d, r.f[0], ('file', k))
    return r


@model('<std::fs::File as std::io::Write>::write', '<std::fs::File as std::io::Write>::write_all', 'std::io::Write::write_all',
       "<&std::fs::File as std::io::Write>::write", "<&std::fs::File as std::io::Write>::write_all")
def _(I, st, f, a, dty):
    h = deref(I, st, a[0])
    if 'fs::File' not in str(I.T.get(h.to, {}).get('s')):
        return NotImplemented
    d, n = raw_buf(I, st, a[1])
    k = file_event(I, st, f.base, fname(I, st, h), d, n)
    if f.base == 'write_all':
        return file_result(I, st, k, dty, lambda t: UNIT)
    r = file_result(I, st, k, dty)
    if variant_idx(I, dty, 'Ok') == r.var:
        file_assume(st, ule(r.f[0], n))
    return r


@model('std::io::BufReader::<R>::new', 'std::io::BufReader::<R>::with_capacity')
def _(I, st, f, a, dty):
    return Sym(('bufreader', I.valname(a[-1])), dty)


@model('std::io::BufRead::read_line', '<std::io::BufReader<R> as std::io::BufRead>::read_line')
def _(I, st, f, a, dty):
    h = deref(I, st, a[0])
    k = file_event(I, st, 'read_line', fname(I, st, h))
    r = file_result(I, st, k, dty)
    if variant_idx(I, dty, 'Ok') == r.var:
        p = ('sym', ('line', k))
        file_assume(st, eq(fn('strlen', (p,), 64), r.f[0]), ult(r.f[0], u64(1 << 62)))
    else:
        p = ('sym', ('partial', k))
    append(I, st, a[1], (p,))
    return r


# ------------------------------------------------------------------ searching a slice

@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::position", "<std::slice::Iter<'a, T> as std::iter::Iterator>::rposition",
       "<std::slice::IterMut<'a, T> as std::iter::Iterator>::position")
def _(I, st, f, a, dty):
    """contract: Some(i) with the predicate true of element i, or None; which of several matches is left open"""
    it = rd(I, st, a[0])
    if not isinstance(it, Ag) or not isinstance(it.f.get(0), Ref):
        return NotImplemented
    g = closure_fn(I, f)
    if g is None:
        raise Unsup('position closure')
    lo, hi = it.f[1], it.f[2]
    base = it.f[0]
    nm = ('position', str(base.root), str(base.path))
    item = '::{closure' not in g.path
    ety = I.T[g.locals[1 if item else 2]]['to']

    def pred(k, want):
        """keep what is possible when the predicate is `want` on element k"""
        if st.facts.decide(ule(k, const(255, 64))):
            k = zext(trunc(k, 8), 64)                # how an index held in a byte addresses it
        if base.path and base.path[-1][0] == 'i' and base.path[-1][2] == 'off':
            el = Ref(base.root, base.path[:-1] + (('i', add(base.path[-1][1], k), ety),), None, ety)
        else:
            el = Ref(base.root, base.path + (('i', k, ety),), None, ety)
        c = a[1]
        cty = g.locals[1]
        if not item and I.T[cty]['k'] in ('ref', 'ptr') and not isinstance(c, Ref):
            root = ('tmp', 'closure', len(st.events))
            st.heap[root] = a[1]
            I.rootty[root] = I.T[cty]['to']
            c = Ref(root, (), None, I.T[cty]['to'])
        rs = I.run(g, [el] if item else [c, el], heap=dict(st.heap), facts=st.facts, mem=st.mem, nf=st.nf + 1000)
        ok = []
        for r in rs:
            if r.status != 'ret':
                raise Unsup('closure: %s %s' % (r.status, r.why))
            x = r.facts.assume(r.ret if want else bneg(r.ret))
            if x is not None:
                ok.append((r, x))
        if not ok:
            raise Dead()
        if len(ok) > 1:
            for r, x in ok:
                for b, v in r.facts.lits.items():
                    if st.facts.decide(b) is None:
                        raise Fork(b)
        st.facts = ok[0][1]
    if I.unroll:
        # bounded exploration: the elements are tested one by one, in the order the search visits them
        rev = f.name.endswith('rposition') or 'rposition' in f.path

        def test(k):
            if st.facts.decide(ule(k, const(255, 64))):
                k = zext(trunc(k, 8), 64)
            el = Ref(base.root, base.path[:-1] + (('i', add(base.path[-1][1], k), ety),), None, ety) \
                if base.path and base.path[-1][0] == 'i' and base.path[-1][2] == 'off' else Ref(base.root, base.path + (('i', k, ety),), None, ety)
            c = a[1]
            cty = g.locals[1]
            if not item and I.T[cty]['k'] in ('ref', 'ptr') and not isinstance(c, Ref):
                root = ('tmp', 'closure', len(st.events))
                st.heap[root] = a[1]
                I.rootty[root] = I.T[cty]['to']
                c = Ref(root, (), None, I.T[cty]['to'])
            u = I.unroll
            rs = I.run(g, [el] if item else [c, el], heap=dict(st.heap), facts=st.facts, mem=st.mem, nf=st.nf + 1000)
            I.unroll = u
            for r in rs:
                if r.status != 'ret':
                    raise Unsup('closure: %s %s' % (r.status, r.why))
            for r in rs:
                for b, v in r.facts.lits.items():
                    if len(rs) > 1 and st.facts.decide(b) is None:
                        raise Fork(b)
            if len(rs) != 1:
                raise Unsup('closure paths')
            return I.decide(st, rs[0].ret)
        for n in range(I.unroll + 1):
            if not I.decide(st, ult(addc(lo, n), hi)):
                return none(I, dty)
            k = addc(hi, -1 - n) if rev else addc(lo, n)
            if test(k):
                return some(I, dty, sub(k, lo))
        raise Beyond()
    if not I.decide(st, bop('posfound', nm)):
        if I.decide(st, ult(lo, hi)):
            pred(lo, False)
            pred(addc(hi, -1), False)
        return none(I, dty)
    i = sym(nm, 64)
    file_assume(st, ule(lo, i), ult(i, hi))
    pred(i, True)
    return some(I, dty, sub(i, lo))


@model('std::time::Instant::elapsed')
def _(I, st, f, a, dty):
    return I.symval(('elapsed', I.valname(rd(I, st, a[0]))), dty)


# ------------------------------------------------------------------ more of String, str, char and slices

def sub_of(s, lo, hi):
    b, off = sub_base(s)
    return ('sub', Str(b), add(off, lo), sub(hi, lo))


def at_boundary(I, st, s, k, what):
    n = strlen(I, st, s)
    k = st.facts.simp(k)
    if not I.decide(st, ule(k, n)):
        raise PanicPath(what, 'index out of bounds')
    if k == u64(0) or k == n or all(p[0] == 'lit' and max(p[1], default=0) < 128 for p in s.p):
        return k, n
    if not I.decide(st, bop('charb', s.p, k)):
        raise PanicPath(what, 'not a char boundary')
    return k, n


def splice(I, st, ref, s, lo, hi, mid, n):
    """s[..lo] + mid + s[hi..]"""
    p = []
    if lo != u64(0):
        p.append(sub_of(s, u64(0), lo))
    p += list(mid)
    if hi != n:
        p.append(sub_of(s, hi, n))
    wr(I, st, ref, Str(norm_pieces(tuple(p))))


@model('std::string::String::capacity')
def _(I, st, f, a, dty):
    return fresh(I, st, 'capacity', dty)


@model('std::string::String::reserve', 'std::string::String::reserve_exact', 'std::string::String::shrink_to_fit', 'std::string::String::shrink_to')
def _(I, st, f, a, dty):
    return UNIT


@model('std::string::String::drain')
def _(I, st, f, a, dty):
    s = str_of(I, st, rd(I, st, a[0]))
    n = strlen(I, st, s)
    ity = next(t for t in reversed(f.targs) if 'Range' in I.T[t].get('name', ''))
    lo, hi = slice_bounds(I, st, f, a[1], ity, n)
    lo, _n = at_boundary(I, st, s, lo, 'String::drain')
    hi, _n = at_boundary(I, st, s, hi, 'String::drain')
    splice(I, st, a[0], s, lo, hi, (), n)
    return Ag(dty, 0, {'drained': Str((sub_of(s, lo, hi),))})


@model("<std::string::Drain<'_> as std::ops::Drop>::drop")
def _(I, st, f, a, dty):
    return UNIT


@model('std::string::String::insert_str')
def _(I, st, f, a, dty):
    s = str_of(I, st, rd(I, st, a[0]))
    k, n = at_boundary(I, st, s, a[1], 'String::insert_str')
    splice(I, st, a[0], s, k, k, str_of(I, st, a[2]).p, n)
    return UNIT


@model('std::string::String::insert')
def _(I, st, f, a, dty):
    s = str_of(I, st, rd(I, st, a[0]))
    k, n = at_boundary(I, st, s, a[1], 'String::insert')
    splice(I, st, a[0], s, k, k, (('ch', a[2]),), n)
    return UNIT


@model('std::string::String::remove')
def _(I, st, f, a, dty):
    s = str_of(I, st, rd(I, st, a[0]))
    n = strlen(I, st, s)
    k = st.facts.simp(a[1])
    if not I.decide(st, ult(k, n)):
        raise PanicPath('String::remove', 'index out of bounds')
    k, n = at_boundary(I, st, s, k, 'String::remove')
    b, off = sub_base(s)
    c = fn('char', (b, add(off, k)), 32)
    ln = fn('utf8len', (c,), 64)
    file_assume(st, ule(add(k, ln), n), ult(ln, u64(5)), bneg(eq(ln, u64(0))))
    splice(I, st, a[0], s, k, st.facts.simp(add(k, ln)), (), n)
    return c


@model("<std::str::Chars<'a> as std::iter::DoubleEndedIterator>::next_back")
def _(I, st, f, a, dty):
    it = rd(I, st, a[0])
    if not isinstance(it, Ag) or 's' not in it.f:
        raise Unsup('chars iter')
    r, pos = it.f['s'], st.facts.simp(it.f['pos'])
    n = st.facts.simp(r.meta)
    if not I.decide(st, ult(pos, n)):
        return none(I, dty)
    s = str_of(I, st, r)
    c = fn('lastchar', (s.p,), 32)
    ln = fn('utf8len', (c,), 64)
    file_assume(st, ult(c, const(0x110000, 32)), bneg(eq(ln, u64(0))), ult(ln, u64(5)), ule(add(pos, ln), n))
    g = dict(it.f)
    g['s'] = subrange(I, st, r, u64(0), st.facts.simp(sub(n, ln)), None, r.to)
    wr(I, st, a[0], Ag(it.ty, 0, g))
    return some(I, dty, c)


@model("<std::str::Chars<'a> as std::iter::Iterator>::size_hint", "<std::str::CharIndices<'a> as std::iter::Iterator>::size_hint")
def _(I, st, f, a, dty):
    uty, ety = I.T[dty]['elems']
    return Ag(dty, 0, {0: fresh(I, st, 'hint', uty), 1: none(I, ety)})


@model('core::str::<impl str>::strip_suffix', 'core::str::<impl str>::strip_prefix')
def _(I, st, f, a, dty):
    s = str_of(I, st, a[0])
    v = a[1]
    if isinstance(v, P) and is_const(v) and cval(v) < 128:
        pat, ln = (('lit', bytes([cval(v)])),), u64(1)
    elif isinstance(v, Ref):
        pv = str_of(I, st, v)
        pat, ln = pv.p, strlen(I, st, pv)
    else:
        raise Unsup('strip pattern')
    n = strlen(I, st, s)
    end = f.base.endswith('strip_suffix')
    if not I.decide(st, ule(ln, n)) or not I.decide(st, bop('ends_with' if end else 'starts_with', s.p, pat)):
        return none(I, dty)
    lo, hi = (u64(0), sub(n, ln)) if end else (ln, n)
    b, off = sub_base(s)
    file_assume(st, bop('charb', b, st.facts.simp(add(off, hi if end else lo))))
    rty = I.T[dty]['variants'][variant_idx(I, dty, 'Some')]['fields'][0][1]
    return some(I, dty, subrange(I, st, a[0], lo, st.facts.simp(hi), None, I.T[rty]['to']))


@model('std::str::<impl str>::to_ascii_lowercase', 'core::str::<impl str>::to_ascii_lowercase')
def _(I, st, f, a, dty):
    return Str((('lower', str_of(I, st, a[0]).p),))


@model('core::slice::<impl [T]>::swap')
def _(I, st, f, a, dty):
    n = st.facts.simp(a[0].meta)
    for k in (a[1], a[2]):
        if not I.decide(st, ult(k, n)):
            raise PanicPath('BoundsCheck', 'slice swap')
    ety = f.targs[0]
    if a[0].root[0] == 'raw':
        raise Unsup('swap in raw memory')
    path, off = a[0].path, u64(0)
    if path and path[-1][0] == 'i' and path[-1][2] == 'off':
        path, off = path[:-1], path[-1][1]
    el = [Ref(a[0].root, path + (('i', add(off, k), ety),), None, ety) for k in (a[1], a[2])]
    x, y = (I.read(st, e.root, e.path, ety) for e in el)
    I.write(st, el[0].root, el[0].path, y, ety)
    I.write(st, el[1].root, el[1].path, x, ety)
    return UNIT


@intr('saturating_sub')
def _(I, st, f, a, dty):
    if I.T[dty].get('n') not in ('Usize', 'U64', 'U32', 'U16', 'U8'):
        return NotImplemented
    return st.facts.simp(sub(a[0], a[1])) if I.decide(st, ule(a[1], a[0])) else const(0, I.T[dty]['size'] * 8)


def bitcount(name, g):
    @intr(name)
    def _(I, st, f, a, dty):
        v = st.facts.simp(a[0])
        w = I.T[f.targs[0]]['size'] * 8
        rw = I.T[dty]['size'] * 8
        if is_const(v):
            return const(g(cval(v) & ((1 << w) - 1), w), rw)
        return fn(name, (v,), rw)


bitcount('ctlz', lambda x, w: w - x.bit_length())
bitcount('cttz', lambda x, w: (x & -x).bit_length() - 1 if x else w)
bitcount('ctpop', lambda x, w: bin(x).count('1'))
bitcount('bswap', lambda x, w: int.from_bytes(x.to_bytes(w // 8, 'little'), 'big'))
bitcount('bitreverse', lambda x, w: int(bin(x)[2:].zfill(w)[::-1], 2))
