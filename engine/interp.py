"""Abstract interpreter over resolved MIR (disjunctive, widening loops by affine induction).

Every abstract state is: call frames, a heap of lazily materialised abstract values,
path facts, a log of effects.  Branch conditions that the facts do not decide split the
state (trace partitioning); loop heads are widened.
"""
import sys
import struct
from terms import *
import terms
from facts import Facts

sys.setrecursionlimit(20000)


class Unsup(Exception):
    pass


class Fork(Exception):
    def __init__(self, b):
        self.b = b


class Dead(Exception):
    """current path is infeasible"""


class Beyond(Exception):
    """the rest of the path is not followed (bounded exploration asked for)"""


class PanicPath(Exception):
    def __init__(self, kind, why=''):
        self.kind = kind
        self.why = why


class Sym:
    __slots__ = ('name', 'ty', '_h')

    def __init__(self, name, ty):
        self.name = name
        self.ty = ty
        self._h = hash((name, ty))

    def __eq__(self, o):
        return isinstance(o, Sym) and self.name == o.name and self.ty == o.ty

    def __hash__(self):
        return self._h

    def __repr__(self):
        return 'Sym<%s>' % show_name(self.name)


class Ag:
    __slots__ = ('ty', 'var', 'f', 'base')

    def __init__(self, ty, var, f, base=None):
        self.ty = ty
        self.var = var
        self.f = f
        self.base = base

    def __eq__(self, o):
        return isinstance(o, Ag) and self.ty == o.ty and self.var == o.var and self.f == o.f and self.base == o.base

    def __hash__(self):
        return hash((self.ty, self.var, self.base, tuple(sorted(self.f.items(), key=lambda kv: str(kv[0])))))

    def __repr__(self):
        return 'Ag%s{%s}%s' % ('' if self.var in (0, None) else '#%s' % self.var,
                               ', '.join('%s: %r' % kv for kv in self.f.items()), '+%r' % self.base if self.base else '')


class Arr:
    __slots__ = ('ety', 'base', 'w')

    def __init__(self, ety, base, w=()):
        self.ety = ety
        self.base = base    # Sym | ('rep', value) | None
        self.w = w

    def __eq__(self, o):
        return isinstance(o, Arr) and self.base == o.base and self.w == o.w

    def __hash__(self):
        return hash((self.base, self.w))

    def __repr__(self):
        return 'Arr(%r, %s)' % (self.base, ', '.join('[%s]=%r' % (show(i), v) for i, v in self.w[-4:]))


class Ref:
    __slots__ = ('root', 'path', 'meta', 'to')

    def __init__(self, root, path=(), meta=None, to=None):
        self.root = root
        self.path = path
        self.meta = meta
        self.to = to

    def __eq__(self, o):
        return isinstance(o, Ref) and self.root == o.root and self.path == o.path and self.meta == o.meta

    def __hash__(self):
        return hash((self.root, self.path, self.meta))

    def __repr__(self):
        r = self.root
        s = r[0] if r[0] != 'L' else 'L%d_%d' % (r[1], r[2])
        if r[0] == 'raw':
            s = 'raw(%s)' % show(r[1])
        elif r[0] == '*':
            s = '*' + show_name(r[1])
        elif r[0] == 'str':
            s = repr(r[1])
        return '&%s%s%s' % (s, ''.join('.%s' % (show_name(e[1]) if not isinstance(e[1], P) else show(e[1])) for e in self.path),
                            '' if self.meta is None else '{%s}' % (show(self.meta) if isinstance(self.meta, P) else self.meta))


class FnV:
    __slots__ = ('fid',)

    def __init__(self, fid):
        self.fid = fid

    def __eq__(self, o):
        return isinstance(o, FnV) and o.fid == self.fid

    def __hash__(self):
        return hash(('fn', self.fid))

    def __repr__(self):
        return 'Fn#%s' % self.fid


class Str:
    """abstract contents of a String / str: tuple of pieces"""
    __slots__ = ('p',)

    def __init__(self, p=()):
        self.p = tuple(p)

    def __eq__(self, o):
        return isinstance(o, Str) and self.p == o.p

    def __hash__(self):
        return hash(self.p)

    def __repr__(self):
        return 'Str%r' % (self.p,)


UNIT = None
UNINIT = ('uninit',)


class Frame:
    __slots__ = ('fn', 'id', 'bb', 'si', 'dest', 'target', 'loops', 'callsp', 'hook')

    def __init__(self, fn, id, dest, target, callsp):
        self.fn = fn
        self.id = id
        self.bb = 0
        self.si = 0
        self.dest = dest
        self.target = target
        self.loops = {}
        self.callsp = callsp
        self.hook = None

    def copy(self):
        g = Frame(self.fn, self.id, self.dest, self.target, self.callsp)
        g.bb = self.bb
        g.si = self.si
        g.loops = dict(self.loops)
        g.hook = self.hook
        return g


class Full(dict):
    def get(self, k, d=None):
        return 'full'


class State:
    __slots__ = ('frames', 'heap', 'facts', 'events', 'mem', 'nf', 'status', 'ret', 'why', 'mayovf', 'steps', 'memver', 'nfork', 'ghost', 'wid', 'probe', 'gen')

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap)
        s.facts = self.facts
        s.events = list(self.events)
        s.mem = self.mem
        s.nf = self.nf
        s.status = self.status
        s.ret = self.ret
        s.why = self.why
        s.mayovf = list(self.mayovf)
        s.steps = self.steps
        s.memver = self.memver
        s.nfork = self.nfork
        s.ghost = self.ghost
        s.wid = self.wid
        s.probe = self.probe
        s.gen = self.gen
        return s


INTW = {'I8': 8, 'I16': 16, 'I32': 32, 'I64': 64, 'I128': 128, 'Isize': 64,
        'U8': 8, 'U16': 16, 'U32': 32, 'U64': 64, 'U128': 128, 'Usize': 64}


class Interp:
    def __init__(self, prog, models, opaque=(), max_paths=4000, max_steps=400000, fnptr_hook=None):
        self.p = prog
        self.T = prog.types
        self.models = models
        self.opaque = opaque            # dict fn-id or base name -> handler
        self.max_paths = max_paths
        self.max_steps = max_steps
        self.fnptr_hook = fnptr_hook
        self.known_fn = None
        self.rootty = {}
        self.analysed = set()
        self.total_steps = 0
        self.unroll = 0
        self.counts = {}                # loop-carried amounts that start from a constant
        self.generic = None             # list collecting the decisions taken on loop-carried amounts

    # ------------------------------------------------------------ types
    def scalar(self, ty):
        t = self.T[ty]
        k = t['k'] if 'k' in t else None
        if k in ('int', 'uint'):
            return ('i', INTW[t['n']], k == 'int')
        if k == 'bool':
            return ('b',)
        if k == 'char':
            return ('i', 32, False)
        if k == 'float':
            return ('fl',)
        if k in ('ref', 'ptr'):
            return ('ref', t['to'])
        if k in ('fndef', 'fnptr'):
            return ('fn',)
        return None

    def is_unsized(self, ty):
        return self.T[ty].get('k') in ('slice', 'str', 'dyn')

    def symval(self, name, ty):
        s = self.scalar(ty)
        if s is None:
            t = self.T[ty]
            if t.get('k') == 'tuple' and not t['elems']:
                return UNIT
            return Sym(name, ty)
        if s[0] == 'i':
            return sym(name, s[1])
        if s[0] == 'b':
            return bsym(name)
        if s[0] == 'fl':
            return Fl(('s', name))
        if s[0] == 'ref':
            t = self.T[ty]
            if t['k'] == 'ptr' and not self.is_unsized(s[1]):
                return Ref(('raw', sym(name, 64)), (), None, s[1])
            root = ('*', name)
            self.rootty[root] = s[1]
            meta = sym(('meta', name), 64) if self.is_unsized(s[1]) else None
            if self.is_text(s[1]):
                meta = fn('strlen', (('sym', root),), 64)
            return Ref(root, (), meta, s[1])
        if s[0] == 'fn':
            t = self.T[ty]
            if t['k'] == 'fndef':
                return FnV(t.get('inst'))
            return Sym(name, ty)

    def is_text(self, ty):
        t = self.T.get(ty) if ty is not None else None
        if not t:
            return False
        if t['k'] == 'slice':
            e = self.T[t['elem']]
            return e.get('k') == 'uint' and e.get('n') == 'U8'
        return t['k'] == 'str' or t.get('s') in ('std::string::String', 'alloc::string::String')

    def ptr_int(self, st, v):
        """integer address of a pointer value"""
        if isinstance(v, P):
            return v
        if v.root[0] == 'raw' and not v.path:
            return v.root[1]
        return sym(('addr', v.root, v.path), 64)

    # ------------------------------------------------------------ places
    def local_place(self, fr, place):
        return (('L', fr.id, place[0]), ())

    def resolve(self, st, fr, place):
        """MIR place -> (root, path, ty, meta)"""
        root = ('L', fr.id, place[0])
        path = ()
        ty = fr.fn.locals[place[0]]
        var = None
        meta = None
        for e in place[1]:
            k = e[0]
            if k == '*':
                v = self.read(st, root, path, ty)
                to = self.T[ty].get('to')
                if isinstance(v, Ref):
                    root, path, meta = v.root, v.path, v.meta
                elif isinstance(v, P):
                    root, path, meta = ('raw', v), (), None
                elif isinstance(v, Sym):        # Box or unknown wrapper
                    root, path, meta = ('*', ('deref', v.name)), (), None
                    if to is None:
                        to = self.T[ty]['args'][0] if self.T[ty].get('args') else None
                    self.rootty[root] = to
                elif isinstance(v, Ag) and self.T[v.ty].get('name', '').endswith('Box'):
                    raise Unsup('box deref')
                else:
                    raise Unsup('deref of %r' % (v,))
                if to is None:
                    raise Unsup('deref type %s' % self.p.ts(ty))
                ty = to
                var = None
            elif k == 'd':
                var = e[1]
            elif k == 'f':
                root, path = self.proj_field(st, root, path, ty, var, e[1], e[2])
                ty = e[2]
                var = None
                meta = None
            elif k == 'il':
                ix = self.read(st, ('L', fr.id, e[1]), (), fr.fn.locals[e[1]])
                root, path, ty = self.proj_index(st, root, path, ty, ix)
                meta = None
            elif k == 'ci':
                if e[2]:
                    n = self.len_of(st, root, path, ty, meta)
                    ix = sub(n, const(e[1], 64))
                else:
                    ix = const(e[1], 64)
                root, path, ty = self.proj_index(st, root, path, ty, ix)
                meta = None
            elif k == 'ss' and self.T[ty]['k'] == 'slice':
                n = self.len_of(st, root, path, ty, meta)
                hi = addc(n, -e[2]) if e[3] else const(e[2], 64)
                ety = self.T[ty]['elem']
                if root[0] == 'raw' and not path:
                    root = ('raw', addc(root[1], e[1] * self.T[ety].get('size', 1)))
                elif path and path[-1][0] == 'i' and path[-1][2] == 'off':
                    path = path[:-1] + (('i', addc(path[-1][1], e[1]), 'off'),)
                else:
                    path = path + (('i', const(e[1], 64), 'off'),)
                meta = st.facts.simp(addc(hi, -e[1]))
            else:
                raise Unsup('projection %r' % (e,))
        return root, path, ty, meta

    def field_offset(self, ty, i):
        sh = self.T[ty].get('shape')
        try:
            return sh['fields']['Arbitrary']['offsets'][i]['num_bits'] // 8
        except Exception:
            raise Unsup('no layout for %s' % self.p.ts(ty))

    def proj_field(self, st, root, path, ty, var, i, fty):
        if root[0] == 'raw' and not path:
            return ('raw', addc(root[1], self.field_offset(ty, i))), ()
        return root, path + (('f', i, var or 0, fty),)

    def proj_index(self, st, root, path, ty, ix):
        t = self.T[ty]
        if t['k'] in ('array', 'slice'):
            ety = t['elem']
        elif t['k'] == 'str':
            ety = self.u8ty()
        else:
            raise Unsup('index into %s' % t['s'])
        ix = st.facts.simp(ix)
        if root[0] == 'raw' and not path:
            return ('raw', add(root[1], mulc(ix, self.T[ety].get('size', 1)))), (), ety
        if path and path[-1][0] == 'i' and path[-1][2] == 'off':
            # sub-slice view
            return root, path[:-1] + (('i', add(path[-1][1], ix), ety),), ety
        return root, path + (('i', ix, ety),), ety

    _u8 = None

    def u8ty(self):
        if self._u8 is None:
            for k, t in self.T.items():
                if t.get('n') == 'U8':
                    self._u8 = k
                    break
        return self._u8

    def type_named(self, s):
        for k, t in self.T.items():
            if t['s'] == s:
                return k
        return None

    def len_of(self, st, root, path, ty, meta):
        t = self.T[ty]
        if t['k'] == 'array':
            return const(t['len'], 64)
        if meta is None:
            raise Unsup('len of thin %s' % t['s'])
        return meta

    # ------------------------------------------------------------ memory read/write
    def root_value(self, st, root):
        v = st.heap.get(root)
        if v is None:
            if root[0] == '*':
                v = self.symval(root, self.rootty[root])
                return v
            if root[0] == 'alloc':
                return self.alloc_value(root[1], root[2])
            if root[0] == 'L':
                return UNINIT
            raise Unsup('no root %r' % (root,))
        return v

    def read(self, st, root, path, ty):
        if root[0] == 'raw':
            if path:
                raise Unsup('raw path')
            return self.raw_read(st, root[1], ty)
        if root[0] == 'str':
            if len(path) == 1 and path[0][0] == 'i' and is_const(path[0][1]):
                k = cval(path[0][1])
                if k < len(root[1]):
                    return const(root[1][k], 8)
            if not path:
                return Str((('lit', root[1]),)) if root[1] else Str(())
            return symval_byte(self, root, path)
        v = self.root_value(st, root)
        for n, e in enumerate(path):
            v = self.elem(st, v, e)
        return v

    def elem(self, st, v, e):
        if isinstance(v, Sym):
            if e[0] == 'f':
                return self.symval(('fld', v.name, e[2], e[1]), e[3])
            if e[0] == 'i':
                if self.is_text(v.ty):
                    return fn('byte', ((('sym', v.name),), st.facts.simp(e[1])), 8)
                return self.symval(('idx', v.name, st.facts.simp(e[1])), e[2])
            if e[0] == 'g':
                return self.ghost_of_sym(st, v, e)
        if isinstance(v, Ag):
            if e[0] == 'f':
                if e[1] in v.f:
                    if v.var is not None and e[2] != v.var and self.T[v.ty].get('ak') == 'Enum':
                        raise Unsup('field of wrong variant')
                    return v.f[e[1]]
                if v.base is not None:
                    return self.elem(st, v.base, e)
                raise Unsup('missing field %r of %r' % (e[1], v))
            if e[0] == 'g':
                k = ('g', e[1])
                if k in v.f:
                    return v.f[k]
                if v.base is not None:
                    return self.elem(st, v.base, e)
                raise Unsup('missing ghost %r of %r' % (e, v))
            if e[0] == 'i':
                raise Unsup('index agg')
        if isinstance(v, Arr):
            if e[0] == 'i':
                ix = st.facts.simp(e[1])
                for wi, wv in reversed(v.w):
                    r = st.facts.decide(eq(wi, ix))
                    if r is True:
                        return wv
                    if r is None:
                        raise Fork(eq(wi, ix))
                if isinstance(v.base, Sym):
                    return self.elem(st, v.base, e)
                if isinstance(v.base, tuple) and v.base and v.base[0] == 'rep':
                    return v.base[1]
                raise Unsup('array read outside writes')
        if isinstance(v, Str):
            if e[0] == 'i':
                b, off = sub_base(v)
                return fn('byte', (b, st.facts.simp(add(off, e[1]))), 8)
            if e[0] == 'g':
                return v
            if e[0] == 'f':
                return v
        if isinstance(v, Ref) and e[0] == 'f' and e[1] == 0:
            return v    # Unique/NonNull/Box style wrappers around a pointer
        raise Unsup('elem %r of %r' % (e[:2], v))

    def write(self, st, root, path, val, ty):
        if root[0] == 'raw':
            if path:
                raise Unsup('raw path write')
            self.raw_write(st, root[1], ty, val)
            return
        if not path:
            st.heap[root] = val
            return
        v = st.heap.get(root)
        if v is None:
            v = self.root_value(st, root) if root[0] != 'L' else UNINIT
        st.heap[root] = self.update(st, v, path, 0, val)

    def update(self, st, v, path, n, val):
        if n == len(path):
            return val
        e = path[n]
        if e[0] in ('f', 'g'):
            key = e[1] if e[0] == 'f' else ('g', e[1])
            if isinstance(v, Sym):
                inner = val if n + 1 == len(path) else self.update(st, self.elem(st, v, e), path, n + 1, val)
                var = None
                if self.T[v.ty].get('ak') == 'Enum':
                    var = e[2]
                return Ag(v.ty, var, {key: inner}, v)
            if isinstance(v, Ag):
                inner = val if n + 1 == len(path) else self.update(st, self.elem(st, v, e), path, n + 1, val)
                f = dict(v.f)
                f[key] = inner
                return Ag(v.ty, v.var, f, v.base)
            if v is UNINIT:
                inner = self.update(st, UNINIT, path, n + 1, val)
                return Ag(None, e[2] if e[0] == 'f' else 0, {key: inner}, None)
            if isinstance(v, Str) and e[0] == 'g':
                return val
            raise Unsup('write field of %r' % (v,))
        if e[0] == 'i':
            ix = st.facts.simp(e[1])
            if isinstance(v, Sym):
                v = Arr(e[2], v)
            if isinstance(v, Arr):
                inner = val if n + 1 == len(path) else self.update(st, self.elem(st, v, e), path, n + 1, val)
                w = []
                for wi, wv in v.w:
                    if st.facts.decide(eq(wi, ix), deep=False) is not True:
                        w.append((wi, wv))
                w.append((ix, inner))
                return Arr(v.ety, v.base, tuple(w))
            raise Unsup('write index of %r' % (v,))
        raise Unsup('update %r' % (e,))

    # raw memory -------------------------------------------------
    def raw_read(self, st, addr, ty):
        addr = st.facts.simp(addr)
        size = self.T[ty].get('size', 0)
        if size == 0:
            return self.symval(('zst', ty), ty)
        self.event(st, ('load', addr, const(size, 64)))
        sc = self.scalar(ty)
        for k in range(len(st.mem) - 1, -1, -1):
            w = st.mem[k]
            if w[0] == 'w':
                d = sub(st.facts.simp(w[1]), addr)
                if is_const(d):
                    dv = sval(d)
                    if dv == 0 and w[2] == size:
                        v = w[3]
                        return self.coerce(v, ty)
                    if dv >= size or dv + w[2] <= 0:
                        continue
                elif st.facts.decide(bneg(ult(sub(addr, st.facts.simp(w[1])), const(w[2], 64)))) is True and \
                        st.facts.decide(bneg(ult(d, const(size, 64)))) is True:
                    continue
            elif w[0] == 'bytes':
                d = sub(st.facts.simp(w[1]), addr)
                if st.facts.decide(bneg(ult(neg(d), st.facts.simp(w[2])))) is True and \
                        st.facts.decide(bneg(ult(d, const(size, 64)))) is True:
                    continue
            return self.symval(('mem', addr, size, ('v', k + 1) + (self.memkey(st, k + 1),)), ty)
        return self.symval(('mem', addr, size), ty)

    def memkey(self, st, n):
        return tuple(st.mem[:n])

    def coerce(self, v, ty):
        sc = self.scalar(ty)
        if sc and sc[0] == 'i' and isinstance(v, P) and v[0] == sc[1]:
            return v
        if sc and sc[0] == 'fl' and isinstance(v, Fl):
            return v
        if sc and sc[0] == 'fl' and isinstance(v, P):
            return Fl(('bits', v))
        if sc and sc[0] == 'i' and isinstance(v, Fl):
            return fn('fbits', (v,), 64)
        return v

    def raw_write(self, st, addr, ty, val):
        addr = st.facts.simp(addr)
        size = self.T[ty].get('size', 0)
        self.event(st, ('store', addr, const(size, 64), val))
        if not (st.mem and st.mem[-1] == ('w', addr, size, val)):       # storing the same value again changes nothing
            st.mem = st.mem + (('w', addr, size, val),)

    def event(self, st, ev):
        st.events.append((ev, st.facts, self.where(st)))

    def where(self, st):
        """(function name, span) of innermost local frame"""
        for fr in reversed(st.frames):
            if fr.fn.local:
                b = fr.fn.blocks[fr.bb]
                sp = b[0][fr.si][3] if fr.si < len(b[0]) else b[1][1]
                return (fr.fn.name, self.p.span(sp))
        return ('?', '?')

    # ------------------------------------------------------------ constants
    def konst(self, st, kind, ty):
        if kind == 'ZeroSized':
            t = self.T[ty]
            if t['k'] == 'fndef':
                return FnV(t.get('inst')) if 'inst' in t else Sym(('fndef', t.get('name')), ty)
            if t['k'] == 'tuple' and not t['elems']:
                return UNIT
            if t['k'] == 'closure':
                return Ag(ty, 0, {})
            return Ag(ty, 0, {})
        if isinstance(kind, dict) and 'Allocated' in kind:
            a = kind['Allocated']
            return self.decode(a, 0, ty)
        raise Unsup('const %r' % (kind,))

    def decode(self, a, off, ty):
        t = self.T[ty]
        k = t['k']
        by = a['bytes']
        size = t.get('size')
        sc = self.scalar(ty)
        if k in ('int', 'uint', 'bool', 'char', 'float'):
            v = int.from_bytes(bytes(x or 0 for x in by[off:off + size]), 'little')
            if k == 'bool':
                return bool(v)
            if k == 'float':
                return Fl(('c', v))
            return const(v, size * 8)
        if k in ('ref', 'ptr'):
            to = t['to']
            prov = {o: al for o, al in a['provenance']['ptrs']}
            meta = None
            if self.is_unsized(to) and self.T[to]['k'] != 'dyn':
                meta = const(int.from_bytes(bytes(x or 0 for x in by[off + 8:off + 16]), 'little'), 64)
            base = int.from_bytes(bytes(x or 0 for x in by[off:off + 8]), 'little')
            if off not in prov:
                return Ref(('raw', const(base, 64)), (), meta, to)
            al = self.p.allocs.get(prov[off])
            if al and 'mem' in al and (self.T[to]['k'] == 'str' or (self.T[to]['k'] == 'slice' and self.T[to]['elem'] == self.u8ty())
                                       or (self.T[to]['k'] == 'array' and self.T[to]['elem'] == self.u8ty())):
                n = cval(meta) if meta is not None else self.T[to]['len']
                b = bytes(x or 0 for x in al['mem']['bytes'][base:base + n])
                return Ref(('str', b), (), meta, to)
            return Ref(('alloc', prov[off], to), (), meta, to)
        if k == 'tuple':
            f = {}
            for i, e in enumerate(t['elems']):
                f[i] = self.decode(a, off + self.field_offset(ty, i), e)
            return Ag(ty, 0, f) if f else UNIT
        if k == 'array':
            n = t['len']
            es = self.T[t['elem']].get('size', 0)
            ws = tuple((const(i, 64), self.decode(a, off + i * es, t['elem'])) for i in range(n))
            return Arr(t['elem'], None, ws)
        if k == 'adt':
            if t['ak'] == 'Struct':
                f = {}
                for i, (n, ft) in enumerate(t['variants'][0]['fields']):
                    if self.T[ft].get('size') == 0:
                        f[i] = Ag(ft, 0, {})
                    else:
                        f[i] = self.decode(a, off + self.field_offset(ty, i), ft)
                return Ag(ty, 0, f)
            if t['ak'] == 'Enum':
                sh = t.get('shape')
                vs = sh['variants']
                if 'Single' in vs:
                    vi = vs['Single']['index']
                    f = {}
                    for i, (n, ft) in enumerate(t['variants'][vi]['fields']):
                        o = sh['fields']['Arbitrary']['offsets'][i]['num_bits'] // 8
                        f[i] = self.decode(a, off + o, ft)
                    return Ag(ty, vi, f)
                mu = vs['Multiple']
                tf = mu['tag_field']
                to = sh['fields']['Arbitrary']['offsets'][tf]['num_bits'] // 8
                tv = list(mu['tag'].values())[0]['value']
                if 'Int' in tv:
                    tsz = {'I8': 1, 'I16': 2, 'I32': 4, 'I64': 8, 'I128': 16}[tv['Int']['length']]
                else:
                    tsz = 8
                tag = int.from_bytes(bytes(x or 0 for x in by[off + to:off + to + tsz]), 'little')
                prov = {o: al for o, al in a['provenance']['ptrs']}
                if mu['tag_encoding'] == 'Direct':
                    vi = None
                    for n, v in enumerate(t['variants']):
                        if int(v['discr']) & ((1 << (8 * tsz)) - 1) == tag:
                            vi = n
                else:
                    ni = mu['tag_encoding']['Niche']
                    rel = (tag - ni['niche_start']) & ((1 << (8 * tsz)) - 1)
                    cnt = ni['niche_variants']['end'] - ni['niche_variants']['start'] + 1
                    if (off + to) in prov or rel >= cnt:
                        vi = ni['untagged_variant']
                    else:
                        vi = ni['niche_variants']['start'] + rel
                f = {}
                for i, (n, ft) in enumerate(t['variants'][vi]['fields']):
                    o = mu['variants'][vi]['offsets'][i]['num_bits'] // 8
                    f[i] = self.decode(a, off + o, ft)
                return Ag(ty, vi, f)
        if k == 'fnptr':
            prov = {o: al for o, al in a['provenance']['ptrs']}
            al = self.p.allocs.get(prov.get(off))
            if al and 'fn' in al:
                return FnV(al['fn'])
        if size == 0:
            return Ag(ty, 0, {})
        return Sym(('const', ty, tuple(by[off:off + (size or 0)])), ty)

    def alloc_value(self, aid, ty):
        al = self.p.allocs.get(aid)
        if al and 'mem' in al:
            t = self.T[ty]
            if t['k'] == 'slice':
                es = self.T[t['elem']].get('size', 1) or 1
                n = len(al['mem']['bytes']) // es
                return Arr(t['elem'], None, tuple((const(i, 64), self.decode(al['mem'], i * es, t['elem'])) for i in range(n)))
            return self.decode(al['mem'], 0, ty)
        return Sym(('static', aid), ty)

    # ------------------------------------------------------------ operands & rvalues
    def operand(self, st, fr, o):
        if o[0] == 'pl':
            root, path, ty, meta = self.resolve(st, fr, o[1])
            v = self.read(st, root, path, ty)
            if isinstance(v, P) or isinstance(v, B):
                v = st.facts.simp(v)
            return v
        if o[0] == 'k':
            return self.konst(st, o[1], o[2])
        if o[0] == 'rt':        # RuntimeChecks (ub checks / overflow checks)
            return False
        raise Unsup('operand')

    def op_ty(self, fr, o):
        if o[0] == 'k':
            return o[2]
        if o[0] == 'pl':
            ty = fr.fn.locals[o[1][0]]
            for e in o[1][1]:
                if e[0] == '*':
                    to = self.T[ty].get('to')
                    ty = to if to is not None else self.T[ty]['args'][0]
                elif e[0] == 'f':
                    ty = e[2]
                elif e[0] in ('il', 'ci'):
                    t = self.T[ty]
                    ty = t.get('elem', self.u8ty())
            return ty
        return None

    def binop(self, st, op, a, b, signed):
        if isinstance(a, Fl) or isinstance(b, Fl):
            return self.fbin(op, a, b)
        if isinstance(a, (bool, B)) or isinstance(b, (bool, B)):
            return self.bbin(st, op, a, b)
        if isinstance(a, Ref) or isinstance(b, Ref):
            if op in ('Offset',):
                return self.ptr_add(st, a, b)
            if isinstance(a, Ref) and isinstance(b, Ref) and op in ('Eq', 'Ne') and a == b:
                return op == 'Eq'
            a, b = self.ptr_int(st, a), self.ptr_int(st, b)
            signed = False
        if not (isinstance(a, P) and isinstance(b, P)):
            raise Unsup('binop %s %r %r' % (op, a, b))
        if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            w = a[0]
            if b[0] != w:
                b = cast(b, w, False)
            if not op.endswith('Unchecked') or True:
                b = band(b, const(w - 1, w))
            if op.startswith('Shl'):
                return shl(a, b)
            return ashr(a, b) if signed else lshr(a, b)
        if op in ('Add', 'AddUnchecked'):
            return add(a, b)
        if op in ('Sub', 'SubUnchecked'):
            return sub(a, b)
        if op in ('Mul', 'MulUnchecked'):
            return mul(a, b)
        if op == 'BitAnd':
            return band(a, b)
        if op == 'BitOr':
            return bor(a, b)
        if op == 'BitXor':
            return bxor(a, b)
        if op == 'Div':
            return sdiv(a, b) if signed else udiv(a, b)
        if op == 'Rem':
            return srem(a, b) if signed else urem(a, b)
        lt = slt if signed else ult
        if op == 'Eq':
            return eq(a, b)
        if op == 'Ne':
            return bneg(eq(a, b))
        if op == 'Lt':
            return lt(a, b)
        if op == 'Le':
            return bneg(lt(b, a))
        if op == 'Gt':
            return lt(b, a)
        if op == 'Ge':
            return bneg(lt(a, b))
        raise Unsup('binop ' + op)

    def bbin(self, st, op, a, b):
        if op == 'Eq':
            if isinstance(b, bool):
                return a if b else bneg(a)
            if isinstance(a, bool):
                return b if a else bneg(b)
            if a == b:
                return True
            return b if self.decide(st, a) else bneg(b)
        if op == 'Ne':
            return bneg(self.bbin(st, 'Eq', a, b))
        if op == 'BitAnd':
            return b if self.decide(st, a) else False
        if op == 'BitOr':
            return True if self.decide(st, a) else b
        if op == 'BitXor':
            return bneg(b) if self.decide(st, a) else b
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            x = int(self.decide(st, a))
            y = int(self.decide(st, b))
            return {'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op]
        raise Unsup('bool binop ' + op)

    def fbin(self, op, a, b):
        if op in ('Add', 'Mul'):
            x, y = sorted((a, b), key=str)
            return Fl(('f' + op.lower(), x, y))
        if op in ('Sub', 'Div', 'Rem'):
            return Fl(('f' + op.lower(), a, b))
        if op == 'Lt':
            return bop('flt', a, b)
        if op == 'Gt':
            return bop('flt', b, a)
        if op == 'Le':
            return bop('fle', a, b)
        if op == 'Ge':
            return bop('fle', b, a)
        if op in ('Eq', 'Ne'):
            x, y = sorted((a, b), key=str)
            if a[0] == 'c' and b[0] == 'c' and a == b:
                r = True
            else:
                r = bop('feq', x, y)
            return r if op == 'Eq' else bneg(r)
        raise Unsup('float op ' + op)

    def ptr_add(self, st, a, n, ety=None):
        if isinstance(a, Ref):
            if a.root[0] == 'raw' and not a.path:
                sz = self.T[a.to].get('size', 1) if a.to is not None else None
                if sz is None:
                    raise Unsup('ptr add unknown elem')
                return Ref(('raw', add(a.root[1], mulc(n, sz))), (), a.meta, a.to)
            if is_const(n) and cval(n) == 0:
                return a
            if a.path and a.path[-1][0] == 'i':
                last = a.path[-1]
                return Ref(a.root, a.path[:-1] + (('i', add(last[1], n)) + last[2:],), a.meta, a.to)
        raise Unsup('ptr add %r' % (a,))

    def decide(self, st, b):
        r, f = st.facts.branch(b)
        if r is None:
            raise Fork(st.facts.simp(f))
        return r

    def rvalue(self, st, fr, rv, dty):
        k = rv[0]
        if k == 'use':
            return self.operand(st, fr, rv[1])
        if k == 'ref':
            root, path, ty, meta = self.resolve(st, fr, rv[1])
            if self.is_unsized(ty) and meta is None:
                raise Unsup('unsized ref without meta')
            return Ref(root, path, meta if self.is_unsized(ty) else None, ty)
        if k in ('bin', 'chk'):
            a = self.operand(st, fr, rv[2])
            b = self.operand(st, fr, rv[3])
            ty = self.op_ty(fr, rv[2])
            signed = self.T[ty].get('k') == 'int'
            if rv[1] == 'Offset':
                if isinstance(a, Ref) and a.to is None:
                    a = Ref(a.root, a.path, a.meta, self.T[ty].get('to'))
                return self.ptr_add(st, a, b)
            if rv[1] == 'Cmp':
                lt = slt if signed else ult
                if self.decide(st, lt(a, b)):
                    d = -1
                elif self.decide(st, eq(a, b)):
                    d = 0
                else:
                    d = 1
                for i, v in enumerate(self.T[dty]['variants']):
                    if tosigned(int(v['discr']), 8) == d:
                        return Ag(dty, i, {})
            if k == 'chk':
                r = self.binop(st, rv[1], a, b, signed)
                o = sat_overflow(rv[1], signed, a, b)
                return Ag(dty, 0, {0: r, 1: o})
            return self.binop(st, rv[1], a, b, signed)
        if k == 'un':
            a = self.operand(st, fr, rv[2])
            if rv[1] == 'Not':
                if isinstance(a, (bool, B)):
                    return bneg(a)
                return bnot(a)
            if rv[1] == 'Neg':
                if isinstance(a, Fl):
                    return Fl(('fneg', a)) if a[0] != 'fneg' else a[1]
                return neg(a)
            if rv[1] == 'PtrMetadata':
                if isinstance(a, Ref):
                    return a.meta if a.meta is not None else UNIT
            raise Unsup('unop %s %r' % (rv[1], a))
        if k == 'cast':
            return self.cast(st, fr, rv, dty)
        if k == 'agg':
            vals = [self.operand(st, fr, o) for o in rv[3]]
            if rv[1] == 'Array':
                return Arr(self.T[dty]['elem'], None, tuple((const(i, 64), v) for i, v in enumerate(vals)))
            if rv[1] == 'RawPtr':
                v = vals[0]
                m = vals[1] if isinstance(vals[1], P) else None
                if isinstance(v, P):
                    v = Ref(('raw', v))
                if isinstance(v, Ref):
                    return Ref(v.root, v.path, m, self.T[dty].get('to'))
                raise Unsup('rawptr agg')
            if rv[1] == 'Tuple' and not vals:
                return UNIT
            if rv[4] is not None:
                return Ag(dty, 0, {rv[4]: vals[0]})
            return Ag(dty, rv[2], dict(enumerate(vals)))
        if k == 'discr':
            root, path, ty, meta = self.resolve(st, fr, rv[1])
            return self.discriminant(st, root, path, ty, dty)
        if k == 'repeat':
            v = self.operand(st, fr, rv[1])
            return Arr(self.T[dty]['elem'], ('rep', v))
        if k == 'len':
            root, path, ty, meta = self.resolve(st, fr, rv[1])
            return self.len_of(st, root, path, ty, meta)
        raise Unsup('rvalue %r' % (rv,))

    def discr_of_value(self, st, v, ty, w):
        t = self.T[ty]
        if isinstance(v, Ag):
            if v.var is None and v.base is not None:
                return self.discr_of_value(st, v.base, ty, w)
            if t.get('ak') == 'Enum':
                return const(int(t['variants'][v.var]['discr']), w)
            return const(0, w)
        if isinstance(v, Sym):
            return st.facts.simp(sym(('discr', v.name), w))
        live = [x for x in t.get('variants', ()) if not any(self.uninhabited(ft) for _, ft in x['fields'])] if t.get('ak') == 'Enum' else []
        if v == UNINIT and len(live) == 1:
            return const(int(live[0]['discr']), w)      # a zero-sized value: nothing is ever stored
        raise Unsup('discr of %r' % (v,))

    def uninhabited(self, ty):
        t = self.T[ty]
        return t.get('k') == 'never' or (t.get('ak') == 'Enum' and not t['variants'])

    def discriminant(self, st, root, path, ty, dty):
        v = self.read(st, root, path, ty)
        w = self.scalar(dty)[1]
        d = self.discr_of_value(st, v, ty, w)
        return d

    def variant_of(self, st, v, ty):
        """decides the variant index of an enum value (may fork)"""
        t = self.T[ty]
        if isinstance(v, Ag) and v.var is not None:
            return v.var
        w = 64
        for i, x in enumerate(t['variants']):
            d = self.discr_of_value(st, v, ty, w)
            if i == len(t['variants']) - 1:
                if st.facts.decide(eq(d, const(int(x['discr']), w))) is False:
                    raise Dead()
                return i
            if self.decide(st, eq(d, const(int(x['discr']), w))):
                return i

    def cast(self, st, fr, rv, dty):
        a = self.operand(st, fr, rv[2])
        ck = rv[1]
        tt = self.T[rv[3]]
        sty = self.op_ty(fr, rv[2])
        sT = self.T[sty]
        if ck == 'IntToInt':
            w = self.scalar(rv[3])[1]
            if isinstance(a, (bool, B)):
                r = st.facts.decide(a)
                return bool_int(a if r is None else r, w)
            if isinstance(a, P):
                return cast(a, w, sT['k'] == 'int')
            if isinstance(a, (Sym, Ag)):
                d = self.discr_of_value(st, a, sty, 64)
                return cast(d, w, True)
            raise Unsup('inttoint %r' % (a,))
        if ck == 'IntToFloat':
            return i2f(a, 'i' if sT['k'] == 'int' else 'u')
        if ck == 'FloatToInt':
            return fn('f2i', (a, tt['n']), self.scalar(rv[3])[1])
        if ck == 'FloatToFloat':
            return Fl(('f2f', a, tt['n']))
        if ck == 'PointerExposeAddress':
            return self.ptr_int(st, a)
        if ck == 'PointerWithExposedProvenance':
            return Ref(('raw', a), (), None, tt['to'])
        if ck in ('PtrToPtr', 'FnPtrToPtr'):
            if isinstance(a, Ref):
                to = tt.get('to')
                m = a.meta if to is not None and self.is_unsized(to) else None
                if m is None and a.meta is not None and to is not None and self.T[to]['k'] not in ('slice', 'str', 'dyn') and a.root[0] != 'raw':
                    # slice pointer to element pointer
                    if not (a.path and a.path[-1][0] == 'i' and a.path[-1][2] == 'off'):
                        if self.T[sty].get('to') is not None and self.is_unsized(self.T[sty]['to']):
                            return Ref(a.root, a.path + (('i', const(0, 64), to),), None, to)
                    else:
                        return Ref(a.root, a.path[:-1] + (('i', a.path[-1][1], to),), None, to)
                return Ref(a.root, a.path, m, to)
            if isinstance(a, P):
                return Ref(('raw', a), (), None, tt.get('to'))
            return a
        if ck == 'Transmute':
            return self.transmute(st, a, sty, rv[3])
        if 'ReifyFnPointer' in ck or 'ClosureFnPointer' in ck or 'UnsafeFnPointer' in ck:
            if sT.get('k') == 'closure' and 'fnptr' in sT:
                return FnV(sT['fnptr'])
            return a
        if 'Unsize' in ck:
            if isinstance(a, Ref):
                to = tt.get('to')
                sto = sT.get('to')
                if to is not None and self.T[to]['k'] == 'slice' and sto is not None and self.T[sto]['k'] == 'array':
                    return Ref(a.root, a.path, const(self.T[sto]['len'], 64), to)
                return Ref(a.root, a.path, ('dyn', sto), to)
            return a
        if 'MutToConstPointer' in ck or 'ArrayToPointer' in ck:
            return a
        raise Unsup('cast ' + ck)

    def transmute(self, st, a, sty, dty):
        ss, ds = self.T[sty], self.T[dty]
        if sty == dty:
            return a
        if isinstance(a, Ref) and ds['k'] in ('ref', 'ptr'):
            return Ref(a.root, a.path, a.meta, ds['to'])
        if isinstance(a, P) and ds['k'] in ('int', 'uint', 'char') and self.scalar(dty)[1] == a[0]:
            return a
        if isinstance(a, (bool, B)) and ds['k'] in ('int', 'uint'):
            return bool_int(a, self.scalar(dty)[1])
        if isinstance(a, P) and ds['k'] == 'bool':
            return bneg(eq(a, const(0, a[0])))
        if isinstance(a, P) and ds['k'] == 'float':
            return Fl(('bits', a)) if not is_const(a) else Fl(('c', cval(a)))
        if isinstance(a, Fl) and ds['k'] in ('int', 'uint'):
            if a[0] == 'bits':
                return a[1]
            return fn('fbits', (a,), 64)
        if isinstance(a, P) and ds['k'] in ('ptr', 'ref'):
            return Ref(('raw', a), (), None, ds['to'])
        if isinstance(a, Ref) and ds['k'] in ('int', 'uint'):
            return self.ptr_int(st, a)
        # newtype wrappers
        if ds['k'] == 'adt' and ds.get('ak') == 'Struct':
            fl = [(i, ft) for i, (n, ft) in enumerate(ds['variants'][0]['fields']) if self.T[ft].get('size') != 0]
            if len(fl) == 1:
                inner = self.transmute(st, a, sty, fl[0][1])
                return Ag(dty, 0, {fl[0][0]: inner})
        if isinstance(a, Ag) and ss['k'] == 'adt' and ss.get('ak') == 'Struct':
            fl = [(i, ft) for i, (n, ft) in enumerate(ss['variants'][0]['fields']) if self.T[ft].get('size') != 0]
            if len(fl) == 1 and fl[0][0] in a.f:
                return self.transmute(st, a.f[fl[0][0]], fl[0][1], dty)
        if isinstance(a, P) and ds['k'] == 'adt' and ds.get('ak') == 'Enum':
            for i, v in enumerate(ds['variants']):
                if not v['fields'] and self.decide(st, eq(a, const(int(v['discr']), a[0]))):
                    return Ag(dty, i, {})
        return Sym(('transmute', self.valname(a), dty), dty)

    def valname(self, v):
        if isinstance(v, (P, B, Fl, str, int)):
            return v
        if isinstance(v, Sym):
            return v.name
        if isinstance(v, Ref):
            return ('ref', v.root, v.path, v.meta)
        if isinstance(v, FnV):
            return ('fnv', v.fid)
        if isinstance(v, Str):
            return ('str', v.p)
        if isinstance(v, Ag):
            return ('ag', v.var, tuple((k, self.valname(x)) for k, x in sorted(v.f.items(), key=str)), self.valname(v.base) if v.base else None)
        if isinstance(v, Arr):
            return ('arr', self.valname(v.base) if isinstance(v.base, Sym) else None, tuple((i, self.valname(x)) for i, x in v.w))
        return ('val', str(v))

    # ------------------------------------------------------------ driver
    def start(self, f, args, heap=None, facts=None, mem=(), nf=0):
        st = State()
        st.heap = dict(heap or {})
        st.facts = facts or Facts()
        st.events = []
        st.mem = mem
        st.nf = nf
        st.frames = []
        st.status = None
        st.ret = None
        st.why = None
        st.mayovf = []
        st.steps = 0
        st.memver = 0
        st.nfork = 0
        st.ghost = {}
        st.wid = ()
        st.probe = False
        st.gen = ()
        self.push_frame(st, f, args, None, None, None)
        return st

    def push_frame(self, st, f, args, dest, target, sp):
        if len(st.frames) > 60:
            raise Unsup('call depth at %s' % f.name)
        if sum(1 for x in st.frames if x.fn is f) > 3:
            raise Unsup('recursion in %s' % f.name)
        self.p.compile(f)
        if f.blocks is None:
            raise Unsup('no body: %s' % f.name)
        self.analysed.add(f.id)
        fr = Frame(f, st.nf, dest, target, sp)
        st.nf += 1
        if f.spread is not None and not (f.path.startswith('std::ops::function::impls::') and len(args) == 2):
            raise Unsup('spread arg fn %s' % f.name)
        if len(args) != f.nargs:
            raise Unsup('arity %s: %d vs %d' % (f.name, len(args), f.nargs))
        for i, a in enumerate(args):
            st.heap[('L', fr.id, i + 1)] = a
        st.frames.append(fr)

    def run(self, f, args, heap=None, facts=None, mem=(), nf=0):
        """all final states: status in ret, panic, stop, unsup, converged"""
        return self.run_states([self.start(f, args, heap, facts, mem, nf)])

    def run_states(self, work):
        done = []
        total = 0
        while work:
            st = work.pop()
            while st.status is None:
                total += 1
                if total > self.max_steps:
                    st.status = 'unsup'
                    st.why = 'step budget'
                    break
                try:
                    self.step(st)
                except Fork as e:
                    b = e.b
                    if self.generic is not None:
                        self.generic.append((b, st.gen, self.where(st)))
                    ft = st.facts.assume(b)
                    ff = st.facts.assume(bneg(b))
                    if ft is None and ff is None:
                        st.status = 'dead'
                        break
                    if ft is None:
                        st.facts = ff
                        continue
                    if ff is None:
                        st.facts = ft
                        continue
                    st.nfork += 1
                    o = st.copy()
                    st.facts = ft
                    o.facts = ff
                    work.append(o)
                    if len(work) + len(done) > self.max_paths:
                        st.status = 'unsup'
                        st.why = 'path budget'
                except Dead:
                    st.status = 'dead'
                except Beyond:
                    st.status = 'beyond'
                except PanicPath as e:
                    st.status = 'panic'
                    st.why = (e.kind, e.why, self.where(st))
                except Unsup as e:
                    st.status = 'unsup'
                    st.why = '%s @ %s' % (e, self.where(st))
            if st.status != 'dead':
                done.append(st)
        self.total_steps += total
        return self.guards_held(done)

    def guards_held(self, done):
        """what every iteration of a widened loop established at its start held one
        iteration earlier too: assumed (for n-1) on the paths that left the loop"""
        # a widened loop that no path leaves never ends
        left = set(id(w) for st in done if st.status != 'converged' for w in st.wid)
        for st in done:
            if st.status == 'converged' and st.wid and id(st.wid[-1]) not in left and \
                    not any(o is not st and o.status == 'converged' and st.wid[-1] in o.wid[:-1] for o in done):
                st.status = 'diverge'
            elif st.probe:
                st.status = 'beyond'
        tags = {}
        for st in done:
            for tag, n, facts, again in st.wid:
                t = tags.setdefault(tag, [n, None])
                if again or st.status in ('unsup', 'beyond'):
                    t[1] = {}
            if st.status == 'converged' and isinstance(st.why, tuple) and st.why[0] == 'conv':
                tag = st.why[1]
                facts = [w[2] for w in st.wid if w[0] == tag][-1]
                new = dict((k, v) for k, v in st.facts.lits.items() if facts.lits.get(k) is None)
                t = tags[tag]
                t[1] = new if t[1] is None else dict((k, v) for k, v in t[1].items() if new.get(k) == v)
        out = []
        for tag, (n, lits) in list(tags.items()):
            x = n[2][0][0][0]
            use = []
            for k, v in (lits or {}).items():
                ds = atoms_of(k)
                if x not in ds or self.loop_dependent(ds, tag, x):
                    continue
                b = k if v else bneg(k)
                zero = subst(b, {x: const(0, 64)})
                use.append((subst(b, {x: sub(n, const(1, 64))}), zero))
                m = self.count_limit(b, x, n)
                if m is not None:
                    use.append((bneg(ult(m, n)), zero))
            tags[tag] = use
        for st in done:
            for w in st.wid:
                for held, base in tags[w[0]]:
                    if st.facts is not None and st.status not in ('converged', 'unsup') and st.facts.decide(base) is True:
                        st.facts = st.facts.assume(held)
            if st.facts is not None:
                out.append(st)
        return out

    def count_limit(self, b, x, n):
        """the largest iteration count before which condition b, true of 0, 1, .. n-1,
        has to fail: b compares something that moves by one each time round"""
        def step(e):
            if e[0] != 64:
                return None
            c = dict(e[2]).get((x,))
            r = sub(e, mulc(n, c)) if c is not None else e
            if x in atoms_of(r):
                return None
            c = 0 if c is None else c - (1 << 64) if c >> 63 else c
            return (c, r) if c in (0, 1, -1) else None
        if b is True or b is False:
            return None
        if b[0] == 'eq0' and not b[2]:
            s = step(b[1])
            return None if s is None or not s[0] else s[1] if s[0] < 0 else neg(s[1])
        if b[0] == 'ult':
            l, r = step(b[1][0]), step(b[1][1])
            if l is None or r is None:
                return None
            d = (l[0], r[0])
            if b[2] and d == (1, 0):
                return sub(r[1], l[1])
            if b[2] and d == (0, -1):
                return sub(r[1], l[1])
            if not b[2] and d == (-1, 0) and is_const(r[1]) and cval(r[1]):
                return l[1]
        return None

    def loop_dependent(self, ds, tag, x):
        """does one of the atoms stand for a value the loop may change otherwise than
        through its iteration count"""
        def has(d):
            if d[:len(tag)] == tag:
                return True
            return any(isinstance(e, tuple) and not isinstance(e, P) and has(e) for e in d)
        return any(a != x and has(terms.ATOMS[a]) for a in ds)

    def step(self, st):
        fr = st.frames[-1]
        stmts, term = fr.fn.blocks[fr.bb]
        n = len(stmts)
        while fr.si < n:
            s = stmts[fr.si]
            k = s[0]
            if k == 'asg':
                pl = s[1]
                ty = self.place_ty(fr, pl)
                ne = len(st.events)
                try:
                    v = self.rvalue(st, fr, s[2], ty)
                    if not pl[1]:
                        st.heap[('L', fr.id, pl[0])] = v
                    else:
                        root, path, pty, meta = self.resolve(st, fr, pl)
                        self.write(st, root, path, v, pty)
                except Fork:
                    del st.events[ne:]
                    raise
            elif k == 'assume':
                b = self.operand(st, fr, s[1])
                f = st.facts.assume(b)
                if f is None:
                    raise Dead()
                st.facts = f
            elif k == 'setd':
                root, path, ty, meta = self.resolve(st, fr, s[1])
                v = self.read(st, root, path, ty) if root in st.heap else UNINIT
                self.write(st, root, path, Ag(ty, s[2], dict(v.f) if isinstance(v, Ag) else {}), ty)
            else:
                raise Unsup('stmt %s' % (s[1],))
            fr.si += 1
        self.terminator(st, fr, term)

    def place_ty(self, fr, pl):
        ty = fr.fn.locals[pl[0]]
        if not pl[1]:
            return ty
        return self.op_ty(fr, ('pl', pl, False))

    def goto(self, st, fr, bb):
        h = fr.fn.loops.get(bb)
        if h is not None:
            self.loop_head(st, fr, bb, fr.bb in h)
        elif fr.loops:
            # leaving loops
            for hd in list(fr.loops):
                if bb not in fr.fn.loops[hd]:
                    del fr.loops[hd]
        fr.bb = bb
        fr.si = 0

    # loops ------------------------------------------------------
    def loop_head(self, st, fr, head, isback):
        if not isback:
            for hd in list(fr.loops):
                if head not in fr.fn.loops[hd]:
                    del fr.loops[hd]
            fr.loops[head] = (dict(st.heap), st.mem, st.nfork, 0, None, 0, len(st.events))
            return
        heap0, mem0, nfork0, mode, info, count, nev = fr.loops[head]
        if mode == 0:
            count += 1
            if st.nfork == nfork0 or count <= self.unroll:
                if info is not None and info[1] == st.nfork and info[2] == st.mem and info[0] == st.heap and \
                        all(e[0][0] in ('store', 'load') for e in st.events[info[3]:]):
                    # the loop came back to a state it was in before: it never ends
                    st.status = 'diverge'
                    return
                if count > 600:
                    return self.probe(st, fr, head, heap0, mem0, nev)
                if count & (count - 1) == 0:
                    info = (dict(st.heap), st.nfork, st.mem, len(st.events))
                fr.loops[head] = (dict(st.heap), st.mem, st.nfork, 0, info, count, nev)
                return
            if count <= 0:
                return
            if self.generic is not None and count > self.unroll:
                tag = ('loop', fr.fn.name, head, st.nf, len(st.mem))
                self.widen(st, fr, head, heap0, mem0, nev, Full())
                st.gen = st.gen + (tag,)
                x = fr.loops[head]
                fr.loops[head] = x[:3] + (2,) + x[4:]
                return
            if self.unroll and count > self.unroll:
                # bounded exploration asked for: the rest of the loop is not followed
                st.status = 'beyond'
                return
            # symbolic loop: widen
            self.widen(st, fr, head, heap0, mem0, nev, {})
            return
        if mode == 2:
            st.status = 'beyond'
            return
        # mode 1: widened; check convergence
        self.check_widen(st, fr, head)

    def probe(self, st, fr, head, heap0, mem0, nev):
        """past the bound the loop is widened only to see whether it can end at all"""
        if st.probe:
            st.status = 'beyond'
            return
        st.probe = True
        self.widen(st, fr, head, heap0, mem0, nev, {})

    def live_roots(self, st, heap0):
        ids = set(f.id for f in st.frames)
        return [r for r in heap0 if r[0] != 'L' or r[1] in ids]

    def widen(self, st, fr, head, heap0, mem0, nev, prev):
        tag = ('loop', fr.fn.name, head, st.nf, len(st.mem))
        n = sym(('n',) + tag, 64)
        st.facts = st.facts.assume(bneg(eq(n, const(0, 64)))) or st.facts
        # iteration counts are far below 2^63
        st.facts = st.facts.assume(ult(n, const(1 << 62, 64))) or st.facts
        deltas = {}
        for r in set(heap0) | set(st.heap):
            if r[0] == 'L' and not any(f.id == r[1] for f in st.frames):
                st.heap.pop(r, None)
                continue
            a = heap0.get(r)
            if a is None and r[0] == '*':
                a = self.root_value_default(r)
            b = st.heap.get(r)
            if b is None and r[0] == '*':
                b = self.root_value_default(r)
            if r[0] == 'L' and (a is None or a is UNINIT):
                # assigned inside the body only: not carried round the loop
                st.heap.pop(r, None)
                continue
            if a is None or b is None or a is b or a == b:
                continue
            if a is UNINIT or b is UNINIT:
                continue
            st.heap[r] = self.widen_value(st, a, b, n, tag + (self.rootname(r),), (r,), deltas, prev)
        memch = st.mem != mem0
        if memch:
            st.mem = st.mem + (('havoc', tag),)
        st.events.append((('loop', fr.fn.name, head), st.facts, self.where(st)))
        st.wid = st.wid + ((tag, n, st.facts, bool(prev)),)
        fr.loops[head] = (dict(st.heap), st.mem, st.nfork, 1, (n, tag, deltas, heap0, mem0), 0, len(st.events))

    def root_value_default(self, r):
        return self.symval(r, self.rootty[r]) if r in self.rootty else None

    def rootname(self, r):
        return r

    def widen_value(self, st, a, b, n, name, path, deltas, prev):
        if a == b:
            return b
        if isinstance(a, P) and isinstance(b, P) and a[0] == b[0]:
            d = sub(st.facts.simp(b), st.facts.simp(a))
            if prev.get(path) == 'full' or not is_const(d):
                deltas[path] = 'full'
                if self.generic is not None and is_const(a) and is_const(b):
                    self.counts[('havoc', name)] = max(abs(sval(a)), abs(sval(b)))
                return sym(('havoc', name), a[0])
            deltas[path] = (sval(d), a)
            nn = n if a[0] == 64 else trunc(n, a[0])
            return add(a, mulc(nn, sval(d)))
        deltas[path] = 'full'
        if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
            return bsym(('havoc', name))
        if isinstance(a, Fl) and isinstance(b, Fl):
            return Fl(('s', ('havoc', name)))
        if isinstance(a, Ag) and isinstance(b, Ag) and a.ty == b.ty and a.var == b.var and a.base == b.base:
            f = {}
            for k in set(a.f) | set(b.f):
                x, y = a.f.get(k), b.f.get(k)
                if x is None and a.base is not None:
                    x = self.default_field(st, a.base, k, y)
                if y is None and b.base is not None:
                    y = self.default_field(st, b.base, k, x)
                if x is UNINIT or y is UNINIT or x is None and y is None:
                    f[k] = y
                    continue
                f[k] = self.widen_value(st, x, y, n, name + (k,), path + (k,), deltas, prev)
            del deltas[path]
            return Ag(a.ty, a.var, f, a.base)
        if isinstance(b, Ag) and isinstance(a, Sym) and b.base == a and b.var is None:
            f = {}
            for k, y in b.f.items():
                x = self.default_field(st, a, k, y)
                f[k] = self.widen_value(st, x, y, n, name + (k,), path + (k,), deltas, prev) if x is not None else y
            del deltas[path]
            return Ag(b.ty, b.var, f, b.base)
        if isinstance(a, Arr) or isinstance(b, Arr):
            ety = (a if isinstance(a, Arr) else b).ety
            base = b if isinstance(b, Sym) else b.base if isinstance(b, Arr) else None
            # structural: same written indices -> widen elementwise, else havoc
            aw = dict(a.w) if isinstance(a, Arr) else {}
            if isinstance(b, Arr) and isinstance(base, Sym):
                out = []
                ok = True
                for i, y in b.w:
                    x = aw.get(i)
                    if x is None:
                        if isinstance(a, Sym) or (isinstance(a, Arr) and not a.w):
                            x = self.elem(st, base, ('i', i, ety))
                        else:
                            ok = False
                            break
                    if x == y:
                        out.append((i, y))
                    else:
                        out.append((i, self.widen_value(st, x, y, n, name + (('e', i),), path + (('e', i),), deltas, prev)))
                if ok and prev.get(path) != 'arrfull':
                    deltas.pop(path, None)
                    return Arr(ety, base, tuple(out))
            deltas[path] = 'arrfull'
            aty = a.ty if isinstance(a, Sym) else (a.base.ty if isinstance(a.base, Sym) else None)
            return Arr(ety, Sym(('havoc', name), aty))
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.root[0] == 'raw' and b.root[0] == 'raw':
                del deltas[path]
                pa = self.widen_value(st, a.root[1], b.root[1], n, name + ('ptr',), path + ('ptr',), deltas, prev) if a.root != b.root else a.root[1]
                m = a.meta
                if a.meta != b.meta:
                    m = self.widen_value(st, a.meta, b.meta, n, name + ('meta',), path + ('meta',), deltas, prev)
                return Ref(('raw', pa), (), m, b.to)
            if a.root == b.root and a.path == b.path:
                del deltas[path]
                return Ref(b.root, b.path, self.widen_value(st, a.meta, b.meta, n, name + ('meta',), path + ('meta',), deltas, prev), b.to)
            if a.root == b.root and len(a.path) == len(b.path) and a.path[:-1] == b.path[:-1] and a.path[-1][0] == 'i' and b.path[-1][0] == 'i':
                del deltas[path]
                ix = self.widen_value(st, a.path[-1][1], b.path[-1][1], n, name + ('ix',), path + ('ix',), deltas, prev)
                m = b.meta
                if a.meta != b.meta:
                    m = self.widen_value(st, a.meta, b.meta, n, name + ('meta',), path + ('meta',), deltas, prev)
                return Ref(b.root, b.path[:-1] + (('i', ix) + b.path[-1][2:],), m, b.to)
            if b.to is not None:
                root = ('*', ('havoc', name))
                self.rootty[root] = b.to
                return Ref(root, (), sym(('havoc', name, 'meta'), 64) if b.meta is not None else None, b.to)
        ty = getattr(b, 'ty', None)
        if ty is None:
            ty = getattr(a, 'ty', None)
        if isinstance(a, Str) and isinstance(b, Str):
            # common prefix + unknown suffix
            k = 0
            while k < len(a.p) and k < len(b.p) and a.p[k] == b.p[k]:
                k += 1
            return Str(b.p[:k] + (('loopstr', name),))
        if ty is not None:
            return Sym(('havoc', name), ty)
        if self.generic is not None:
            return ('lost',)        # a value of the round before, which the next one replaces
        raise Unsup('cannot widen %r / %r' % (a, b))

    def default_field(self, st, base, k, like):
        try:
            if isinstance(k, tuple) and k[0] == 'g':
                return self.elem(st, base, ('g', k[1]))
            t = self.T[base.ty]
            if t.get('k') == 'adt':
                fty = t['variants'][0]['fields'][k][1]
            elif t.get('k') == 'tuple':
                fty = t['elems'][k]
            elif t.get('k') == 'closure':
                return None
            else:
                return None
            return self.symval(('fld', base.name, 0, k), fty)
        except Exception:
            return None

    def check_widen(self, st, fr, head):
        heapw, memw, nforkw, mode, info, count, nev = fr.loops[head]
        n, tag, deltas, heap0, mem0 = info
        bad = {}
        for r in set(heapw) | set(st.heap):
            if r[0] == 'L' and not any(f.id == r[1] for f in st.frames):
                continue
            a = heapw.get(r)
            if a is None and r[0] == '*':
                a = self.root_value_default(r)
            b = st.heap.get(r)
            if b is None and r[0] == '*':
                b = self.root_value_default(r)
            if a is None or b is None or a is UNINIT or b is UNINIT:
                continue
            self.cmp_widened(st, a, b, (r,), deltas, bad)
        memch = st.mem != memw
        if memch and not any(w[0] == 'havoc' and w[1][:3] == tag[:3] for w in memw):
            bad[('mem',)] = 'full'
        if not bad:
            st.status = 'converged'
            st.why = ('conv', tag)
            return
        if count >= 4:
            raise Unsup('loop does not converge in %s: %s' % (fr.fn.name, list(bad)[:3]))
        nd = dict((k, v) for k, v in deltas.items() if isinstance(v, str))
        nd.update(bad)
        # re-widen from loop entry against the current state with the worse lattice level
        self.widen(st, fr, head, heap0, mem0, nev, nd)
        x = fr.loops[head]
        fr.loops[head] = x[:5] + (count + 1,) + x[6:]

    def cmp_widened(self, st, a, b, path, deltas, bad):
        if a == b:
            return
        if isinstance(a, P) and isinstance(b, P) and a[0] == b[0]:
            dl = deltas.get(path)
            if dl == 'full':
                return
            d = sub(st.facts.simp(b), st.facts.simp(a))
            if dl is not None and is_const(d) and sval(d) == dl[0]:
                return
            if is_const(d) and cval(d) == 0:
                return
            bad[path] = 'full'
            return
        dl = deltas.get(path)
        if dl == 'full' or dl == 'arrfull':
            return
        if isinstance(a, Ag) and isinstance(b, Ag) and a.ty == b.ty and a.var == b.var and a.base == b.base:
            for k in set(a.f) | set(b.f):
                x, y = a.f.get(k), b.f.get(k)
                if x is None and a.base is not None:
                    x = self.default_field(st, a.base, k, y)
                if y is None and b.base is not None:
                    y = self.default_field(st, b.base, k, x)
                if x is UNINIT or y is UNINIT or x is None or y is None:
                    if x is not y:
                        bad[path] = 'full'
                    continue
                self.cmp_widened(st, x, y, path + (k,), deltas, bad)
            return
        if isinstance(a, Arr) and isinstance(b, Arr) and a.base == b.base:
            aw, bw = dict(a.w), dict(b.w)
            for i, y in bw.items():
                x = aw.get(i)
                if x is None:
                    bad[path] = 'arrfull'
                    return
                self.cmp_widened(st, x, y, path + (('e', i),), deltas, bad)
            return
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.root[0] == 'raw' and b.root[0] == 'raw':
                self.cmp_widened(st, a.root[1], b.root[1], path + ('ptr',), deltas, bad)
                if a.meta != b.meta:
                    self.cmp_widened(st, a.meta, b.meta, path + ('meta',), deltas, bad)
                return
            if a.root == b.root and a.path == b.path:
                self.cmp_widened(st, a.meta, b.meta, path + ('meta',), deltas, bad)
                return
            if a.root == b.root and len(a.path) == len(b.path) and a.path[:-1] == b.path[:-1] and a.path[-1][0] == 'i':
                self.cmp_widened(st, a.path[-1][1], b.path[-1][1], path + ('ix',), deltas, bad)
                if a.meta != b.meta:
                    self.cmp_widened(st, a.meta, b.meta, path + ('meta',), deltas, bad)
                return
        if isinstance(a, Str) and isinstance(b, Str) and a.p and a.p[-1][0] == 'loopstr' and b.p[:len(a.p) - 1] == a.p[:-1]:
            return
        bad[path] = 'full'

    # terminators --------------------------------------------------
    def terminator(self, st, fr, t):
        k = t[0]
        if k == 'goto':
            self.goto(st, fr, t[2])
        elif k == 'switch':
            v = self.operand(st, fr, t[2])
            if isinstance(v, (bool, B)):
                r = self.decide(st, v)
                x = 1 if r else 0
                for val, bb in t[3]:
                    if val == x:
                        self.goto(st, fr, bb)
                        return
                self.goto(st, fr, t[4])
                return
            if isinstance(v, P):
                w = v[0]
                for val, bb in t[3]:
                    if self.decide(st, eq(v, const(val, w))):
                        self.goto(st, fr, bb)
                        return
                if fr.fn.blocks[t[4]][1][0] == 'unreachable' and not fr.fn.blocks[t[4]][0]:
                    raise Dead()
                self.goto(st, fr, t[4])
                return
            raise Unsup('switch on %r' % (v,))
        elif k == 'call':
            self.call(st, fr, t)
        elif k == 'assert':
            b = self.operand(st, fr, t[2])
            if not t[3]:
                b = bneg(b)
            mk, md = t[4]
            if mk in ('Overflow', 'OverflowNeg'):
                r = st.facts.decide(b)
                if r is not True:
                    st.mayovf.append((bneg(b), st.facts, self.where(st), md))
                    if getattr(self, 'ovf_assume', False):
                        f = st.facts.assume(b)
                        if f is None:
                            raise Dead()
                        st.facts = f
                self.goto(st, fr, t[5])
                return
            if self.decide(st, b):
                self.goto(st, fr, t[5])
            else:
                raise PanicPath(mk, md)
        elif k == 'drop':
            h = self.models.get('@drop')
            if h:
                h(self, st, fr, t)
            self.goto(st, fr, t[3])
        elif k == 'return':
            self.do_return(st, fr)
        elif k == 'unreachable':
            raise Dead()
        else:
            raise Unsup('terminator %s' % (t,))

    def do_return(self, st, fr):
        v = st.heap.get(('L', fr.id, 0), UNIT)
        if v is UNINIT:
            v = UNIT
        if fr.hook:
            v = fr.hook(self, st, fr, v)
        st.frames.pop()
        if not st.frames:
            st.status = 'ret'
            st.ret = v
            return
        for i in range(len(fr.fn.locals)):
            st.heap.pop(('L', fr.id, i), None)
        caller = st.frames[-1]
        self.finish_call(st, caller, fr.dest, fr.target, v)

    def finish_call(self, st, caller, dest, target, v):
        if target is None:
            raise Dead()
        root, path, ty, meta = self.resolve(st, caller, dest)
        self.write(st, root, path, v, ty)
        self.goto(st, caller, target)

    def call(self, st, fr, t):
        _, sp, fop, aops, dest, target, callee = t
        ne = len(st.events)
        hcopy = None
        mem0 = st.mem
        nf0 = st.nf
        mo = len(st.mayovf)
        depth = len(st.frames)
        try:
            args = [self.operand(st, fr, a) for a in aops]
            fv = None
            if isinstance(callee, str):
                raise Unsup('unresolved callee %s' % callee)
            if callee is None:
                fv = self.operand(st, fr, fop)
                known = self.known_fn(fv) if self.known_fn else None
                if isinstance(fv, FnV) and fv.fid is not None:
                    callee = fv.fid
                elif known is not None:
                    callee = known
                else:
                    if self.fnptr_hook:
                        hcopy = dict(st.heap)
                        r = self.fnptr_hook(self, st, fr, fv, args, dest)
                        self.finish_call(st, fr, dest, target, r)
                        return
                    raise Unsup('indirect call')
            f = self.p.fns[callee]
            f, args = self.unshim(st, f, args)
            h = self.find_model(f)
            if h is not None:
                hcopy = dict(st.heap)
                dty = self.place_ty(fr, dest)
                r = h(self, st, f, args, dty)
                if r is NotImplemented:
                    st.heap = hcopy
                elif r is PUSHED:
                    g = st.frames[-1]
                    g.dest, g.target, g.callsp = dest, target, sp
                    return
                else:
                    self.finish_call(st, fr, dest, target, r)
                    return
            if f.empty:
                self.finish_call(st, fr, dest, target, UNIT)
                return
            self.p.compile(f)
            if f.blocks is None:
                raise Unsup('external %s' % f.name)
            if fv is not None and '::{closure' in f.path and len(args) == f.nargs - 1:
                args = [UNIT] + args
            else:
                args = self.adjust_args(st, fr, fop, f, args)
            self.push_frame(st, f, args, dest, target, sp)
        except Fork:
            del st.events[ne:]
            del st.mayovf[mo:]
            st.mem = mem0
            st.nf = nf0
            del st.frames[depth:]
            if hcopy is not None:
                st.heap = hcopy
            raise

    def unshim(self, st, f, args):
        """the compiler's shim that calls a function item or pointer through Fn/FnMut/FnOnce"""
        if f.local or len(args) != 2 or not f.path.split('::')[-1] in ('call', 'call_mut', 'call_once'):
            return f, args
        self.p.compile(f)
        if f.spread is None:
            return f, args
        c = args[0]
        cty = f.locals[1]
        if self.T[cty]['k'] in ('ref', 'ptr'):
            cty = self.T[cty]['to']
            if isinstance(c, Ref) and self.T[cty]['k'] != 'fndef':
                c = self.read(st, c.root, c.path, cty)
        if self.T[cty]['k'] == 'fndef' and 'inst' in self.T[cty]:
            g = self.p.fns[self.T[cty]['inst']]
        elif isinstance(c, FnV) and c.fid is not None:
            g = self.p.fns[c.fid]
        else:
            return f, args
        t = args[1]
        if t is UNIT:
            return g, []
        if isinstance(t, Ag):
            vals = [t.f[i] for i in range(len(t.f))]
            if '::{closure' in g.path:
                vals = [UNIT] + vals
            return g, vals
        return f, args

    def adjust_args(self, st, fr, fop, f, args):
        if fop[0] == 'k':
            ft = self.T[fop[2]]
            nm = ft.get('name', '')
            if '{closure' in f.name and '::{closure' in f.path and nm.split('::')[-1] in ('call_once', 'call_mut', 'call') and len(args) == 2:
                tup = args[1]
                vals = []
                if isinstance(tup, Ag):
                    vals = [tup.f[i] for i in range(len(tup.f))]
                elif tup is UNIT:
                    vals = []
                elif isinstance(tup, Sym):
                    tt = self.T[tup.ty]
                    vals = [self.symval(('fld', tup.name, 0, i), e) for i, e in enumerate(tt['elems'])]
                a0 = args[0]
                return [a0] + vals
        return args

    def call_fn(self, st, f, args, hook=None):
        """used by models that want to run a function body: pushes a frame"""
        self.push_frame(st, f, args, None, None, None)
        st.frames[-1].hook = hook
        return PUSHED

    def find_model(self, f):
        h = self.opaque.get(f.id)
        if h is not None:
            return h
        if f.intrinsic:
            h = self.models.get('intrinsic:' + f.intrinsic)
            if h is not None:
                return h
        if f.local:
            h = self.opaque.get(f.path)
            return h
        h = self.models.get(f.path)
        return h

    # ghosts of symbolic containers --------------------------------------
    def ghost_of_sym(self, st, v, e):
        g = e[1]
        t = self.T[v.ty]
        if g == 'elems':
            ety = t['args'][0]
            return Sym(('elems', v.name), self.slice_ty(ety))
        if g == 'len':
            return sym(('len', v.name), 64)
        if g == 'str':
            return Str((('sym', v.name),))
        raise Unsup('ghost %r of %r' % (g, v))

    def slice_ty(self, ety):
        for k, t in self.T.items():
            if t.get('k') == 'slice' and t.get('elem') == ety:
                return k
        # synthesise
        k = max(self.T) + 1
        self.T[k] = {'k': 'slice', 'elem': ety, 's': '[%s]' % self.T[ety]['s']}
        return k


class _Pushed:
    pass


PUSHED = _Pushed()


def i2f(a, k='i'):
    if is_const(a):
        v = float(sval(a) if k == 'i' else cval(a))
        return Fl(('c', struct.unpack('<Q', struct.pack('<d', v))[0]))
    return Fl(('i2f', a, k))


def sub_base(s):
    """(pieces, offset): the string a substring is cut from"""
    p, off = s.p, const(0, 64)
    while len(p) == 1 and p[0][0] == 'sub':
        off = add(off, p[0][2])
        p = p[0][1].p
    return p, off


def symval_byte(I, root, path):
    return fn('strbyte', (root, path[0][1]), 8)
