"""Loads the JSON dump of resolved, monomorphic MIR and precompiles it."""
import json
import re


class Fn:
    __slots__ = ('id', 'name', 'path', 'crate', 'kind', 'local', 'nargs', 'locals', 'blocks', 'intrinsic',
                 'targs', 'empty', 'spread', 'ty', 'base', 'file', 'loops', '_prog', 'raw')

    def __repr__(self):
        return '<Fn %s>' % self.name


class Program:
    def __init__(self, path):
        text = open(path).read()
        d = json.loads(text)
        if d['crate'] != 'rtforth':
            # a program that embeds the library: use the library's own names for its items
            c = re.escape(d['crate'])
            text = re.sub(r'\b%s::(?:\w+::)*?(rtforth|hibitset)::' % c, lambda m: m.group(1) + '::' if m.group(1) == 'rtforth' else 'rtforth::hibitset::', text)
            text = re.sub(r'\bvm::hibitset::', 'rtforth::hibitset::', text)
            d = json.loads(text)
        self.crate = d['crate']
        self.types = {int(k): v for k, v in d['types'].items()}
        if self.crate != 'rtforth':
            for t in self.types.values():
                t['s'] = t['s'].replace('rtforth::', '')
        self.spans = {int(k): v for k, v in d['spans'].items()}
        self.allocs = {int(k): v for k, v in d['allocs'].items()}
        self.roots = d['roots']
        self.trait_impls = d['trait_impls']
        self.fns = []
        for i, x in enumerate(d['insts']):
            f = Fn()
            f.id = i
            f._prog = self
            f.name = x['name']
            f.path = x['path']
            f.base = x['path'].split('::')[-1]
            f.crate = x['crate']
            f.kind = x['kind']
            f.local = x['crate'] in (self.crate, 'rtforth')
            f.intrinsic = x.get('intrinsic')
            f.targs = x.get('targs', [])
            f.empty = x.get('empty', False)
            f.ty = x.get('ty')
            f.blocks = None
            f.raw = x.get('body')
            f.nargs = x['body']['arg_count'] if 'body' in x else 0
            f.locals = [l['ty'] for l in x['body']['locals']] if 'body' in x else []
            f.spread = x['body'].get('spread_arg') if 'body' in x else None
            f.file = None
            f.loops = None
            if 'body' in x:
                x['body']['calls'] = x.get('calls', {})
                sp = self.spans.get(x['body'].get('span'))
                f.file = sp
            self.fns.append(f)
        self.methods = {}     # (self type string, trait tail, method) -> fn id
        for t in self.trait_impls:
            for m, i in t['methods']:
                self.methods[(self.types[t['self']]['s'], t['trait'].split('::')[-1], m)] = i
        for f in self.fns:
            m = re.match(r'<([\w:]+) as ([\w:]+)>::(\w+)$', f.name)
            if m and f.local and self.crate != 'rtforth':
                self.methods.setdefault((m.group(1).replace('rtforth::', ''), m.group(2).split('::')[-1], m.group(3)), f.id)
        self.by_name = {}
        for f in self.fns:
            self.by_name.setdefault(f.name, f)

    def ts(self, t):
        return self.types[t]['s']

    def span(self, s):
        v = self.spans.get(s)
        if not v:
            return '?'
        return '%s:%d' % (v[0], v[1])

    def compile(self, f):
        if f.blocks is not None or f.raw is None:
            return f.blocks
        calls = f.raw['calls']
        out = []
        for bi, b in enumerate(f.raw['blocks']):
            st = []
            for s in b['statements']:
                k = s['kind']
                if isinstance(k, str):
                    continue
                kk = next(iter(k))
                if kk == 'Assign':
                    pl, rv = k['Assign']
                    st.append(('asg', self.place(pl), self.rval(rv), s['source_info']['span']))
                elif kk == 'SetDiscriminant':
                    v = k[kk]
                    st.append(('setd', self.place(v['place']), v['variant_index'], s['source_info']['span']))
                elif kk == 'Intrinsic':
                    v = k[kk]
                    if 'Assume' in v:
                        st.append(('assume', self.op(v['Assume']), None, s['source_info']['span']))
                    else:
                        st.append(('unk', kk, v, s['source_info']['span']))
                elif kk in ('StorageLive', 'StorageDead', 'FakeRead', 'PlaceMention', 'AscribeUserType', 'Coverage', 'Retag', 'ConstEvalCounter', 'Nop'):
                    continue
                else:
                    st.append(('unk', kk, None, s['source_info']['span']))
            t = b['terminator']
            sp = t['source_info']['span']
            k = t['kind']
            if isinstance(k, str):
                term = (k.lower(), sp)
            else:
                kk = next(iter(k))
                v = k[kk]
                if kk == 'Goto':
                    term = ('goto', sp, v['target'])
                elif kk == 'SwitchInt':
                    term = ('switch', sp, self.op(v['discr']), [(int(a), c) for a, c in v['targets']['branches']], v['targets']['otherwise'])
                elif kk == 'Call':
                    term = ('call', sp, self.op(v['func']), [self.op(a) for a in v['args']], self.place(v['destination']), v['target'], calls.get(str(bi)))
                elif kk == 'Assert':
                    m = v['msg']
                    mk = m if isinstance(m, str) else next(iter(m))
                    md = None
                    if isinstance(m, dict) and mk == 'Overflow':
                        md = m[mk][0]
                    term = ('assert', sp, self.op(v['cond']), v['expected'], (mk, md), v['target'])
                elif kk == 'Drop':
                    term = ('drop', sp, self.place(v['place']), v['target'], calls.get(str(bi)))
                else:
                    term = ('unkterm', sp, kk)
            out.append((st, term))
        f.blocks = out
        f.raw = None
        f.loops = find_loops(out)
        return out

    def place(self, p):
        pr = []
        for e in p['projection']:
            if isinstance(e, str):
                pr.append(('*',) if e == 'Deref' else ('?', e))
            else:
                k = next(iter(e))
                v = e[k]
                if k == 'Field':
                    pr.append(('f', v[0], v[1]))
                elif k == 'Index':
                    pr.append(('il', v))
                elif k == 'ConstantIndex':
                    pr.append(('ci', v['offset'], v['from_end'], v['min_length']))
                elif k == 'Downcast':
                    pr.append(('d', v))
                elif k == 'Subslice':
                    pr.append(('ss', v['from'], v['to'], v['from_end']))
                else:
                    pr.append(('?', k))
        return (p['local'], tuple(pr))

    def op(self, o):
        k = next(iter(o))
        if k in ('Copy', 'Move'):
            return ('pl', self.place(o[k]), k == 'Move')
        if k == 'Constant':
            c = o[k]['const_']
            return ('k', c['kind'], c['ty'])
        return ('rt', k, o[k])

    def rval(self, rv):
        if isinstance(rv, str):
            return ('unk', rv)
        k = next(iter(rv))
        v = rv[k]
        if k == 'Use':
            return ('use', self.op(v[0]))
        if k == 'Ref':
            return ('ref', self.place(v[2]), v[1])
        if k == 'AddressOf':
            return ('ref', self.place(v[1]), v[0])
        if k in ('BinaryOp', 'CheckedBinaryOp'):
            return ('bin' if k == 'BinaryOp' else 'chk', v[0], self.op(v[1]), self.op(v[2]))
        if k == 'UnaryOp':
            return ('un', v[0], self.op(v[1]))
        if k == 'Cast':
            ck = v[0]
            if isinstance(ck, dict):
                ck = json.dumps(ck)
            return ('cast', ck, self.op(v[1]), v[2])
        if k == 'Aggregate':
            a = v[0]
            ak = a if isinstance(a, str) else next(iter(a))
            variant = a['Adt'][1] if ak == 'Adt' else 0
            af = a['Adt'][4] if ak == 'Adt' else None
            return ('agg', ak, variant, [self.op(x) for x in v[1]], af)
        if k == 'Discriminant':
            return ('discr', self.place(v))
        if k == 'Repeat':
            n = None
            kind = v[1]['kind']
            if isinstance(kind, dict) and 'Value' in kind:
                n = int.from_bytes(bytes(kind['Value'][1]['bytes']), 'little')
            return ('repeat', self.op(v[0]), n)
        if k == 'CopyForDeref':
            return ('use', ('pl', self.place(v), False))
        if k == 'Len':
            return ('len', self.place(v))
        return ('unk', k)


def succs(term):
    k = term[0]
    if k == 'goto':
        return [term[2]]
    if k == 'switch':
        return [b for _, b in term[3]] + [term[4]]
    if k == 'call':
        return [term[5]] if term[5] is not None else []
    if k == 'assert':
        return [term[5]]
    if k == 'drop':
        return [term[3]]
    return []


def find_loops(blocks):
    """set of loop heads -> set of body blocks (natural loops via DFS back edges)"""
    n = len(blocks)
    color = [0] * n
    back = []
    stack = [(0, iter(succs(blocks[0][1])))]
    color[0] = 1
    while stack:
        u, it = stack[-1]
        for v in it:
            if color[v] == 0:
                color[v] = 1
                stack.append((v, iter(succs(blocks[v][1]))))
                break
            elif color[v] == 1:
                back.append((u, v))
        else:
            color[u] = 2
            stack.pop()
    preds = {}
    for i, b in enumerate(blocks):
        for s in succs(b[1]):
            preds.setdefault(s, []).append(i)
    loops = {}
    for u, h in back:
        body = loops.setdefault(h, {h})
        w = [u]
        while w:
            x = w.pop()
            if x in body:
                continue
            body.add(x)
            w.extend(preds.get(x, []))
    return loops


def registered_words(prog):
    """(forth name, kind, fn id, caller, span) for every add_primitive-like registration.

    The registration functions are recognised by what they do with their arguments,
    not here: this only reads call sites whose arguments are (&mut VM, "literal", fn)."""
    out = []
    for f in prog.fns:
        if not f.local:
            continue
    return out
