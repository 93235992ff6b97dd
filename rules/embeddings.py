"""C12: every embedding of the machine implements the same ownership of state.

The accessor methods of each embedding are abstractly interpreted; the place (or value) each one
yields must be shared by all tasks or belong to the current task as documented, different accessors
must yield different places, and every setter must change exactly what its getter reads."""
import os
import extract
from runner import rule
from vm import *
import models


def c64(n):
    return const(n, 64)

SHARED = 'data_space hold_buffer output_buffer last_token wordlist references forward_bitset resolved_bitset labels'.split()
TASK = 's_stack r_stack c_stack f_stack state files sources lines'.split()
SAME = dict(data_space='data_space_const', files='files_mut', sources='sources_mut', lines='lines_mut', wordlist='wordlist_mut',
            forward_bitset='forward_bitset_mut', resolved_bitset='resolved_bitset_mut', labels='labels_mut')
NT = 5
GROUPS = 'add_core add_output add_tools add_environment add_facility add_float add_units add_file_access add_loader'.split()


def prefix(a, b):
    n = min(len(a), len(b))
    return a[:n] == b[:n]


def plain(path):
    """path of a place without type annotations"""
    out = []
    for e in path:
        if e[0] == 'i':
            out.append(('i', e[1]))
        elif e[0] == 'f':
            out.append(('f', e[1]))
        else:
            out.append(tuple(x if not isinstance(x, int) or e[0] != 'd' else x for x in e[:2]))
    return tuple(out)


class Emb:
    def __init__(self, W, out, label):
        self.W, self.out, self.label = W, out, label

    def run(self, m, args=(), heap=None, facts=None):
        W = self.W
        return W.I.run(W.fn(m), [W.vmref] + list(args), heap=heap, facts=facts or W.base_facts())

    def where(self, m):
        f = self.W.fn(m)
        return '%s:%s' % (f.file[0], f.file[1]) if isinstance(f.file, (list, tuple)) else '?'

    def bad(self, m, what):
        self.out.bad('%s: %s: %s' % (self.label, m, what), self.where(m), 'accessor %s of %s: %s' % (m, self.label, what))

    def places(self, m, heap=None, facts=None):
        rs = self.run(m, heap=heap, facts=facts)
        if any(r.status == 'unsup' for r in rs):
            return None
        return [(r, r.ret) for r in rs if r.status == 'ret']

    def value(self, m, st, args=(), facts=None):
        """what getter m reads in a later state"""
        rs = [r for r in self.run(m, args, heap=st.heap, facts=facts or st.facts) if r.status == 'ret']
        if len(rs) != 1:
            return None
        v = rs[0].ret
        if isinstance(v, Ref):
            v = self.W.I.read(rs[0], v.root, v.path, v.to)
        return self.W.I.valname(v) if not isinstance(v, (P, bool, B)) else rs[0].facts.simp(v) if isinstance(v, P) else v

    def check(self):
        W, out = self.W, self.out
        got = {}
        ct = [r.ret for r in self.run('current_task') if r.status == 'ret']
        if len(ct) != 1 or not isinstance(ct[0], P):
            out.unk('%s: current_task has no single value' % self.label)
            return
        ct = ct[0]
        for m in SHARED + TASK:
            ps = self.places(m)
            if ps is None or not ps:
                out.unk('%s: %s is not analysable' % (self.label, m))
                continue
            out.functions.add(W.fn(m).name)
            if len(ps) != 1 or not isinstance(ps[0][1], Ref):
                # several places: every one must be of the documented kind
                pass
            pl = {(r.root, plain(r.path)) for _, r in ps if isinstance(r, Ref)}
            if len(pl) != 1:
                self.bad(m, 'yields %d different places' % len(pl))
                continue
            root, path = pl.pop()
            ix = [e[1] for e in path if e[0] == 'i']
            if root != W.root:
                self.bad(m, 'is not part of the machine')
            elif m in SHARED and ix:
                self.bad(m, 'is not shared by all tasks')
            elif m in TASK and (len(ix) != 1 or ps[0][0].facts.simp(ix[0]) != ps[0][0].facts.simp(ct)):
                self.bad(m, 'does not belong to the current task')
            else:
                out.ok()
            got[m] = path
        for a in got:
            for b in got:
                if a < b and prefix(got[a], got[b]):
                    self.bad(b, 'shares its storage with %s' % a)
        out.ok(len(got))
        for a, b in SAME.items():
            if a in got and W.has(b):
                ps = self.places(b)
                if ps is None:
                    out.unk('%s: %s is not analysable' % (self.label, b))
                elif {(r.root, plain(r.path)) for _, r in ps} != {(W.root, got[a])}:
                    self.bad(b, 'and %s yield different places' % a)
                else:
                    out.ok()
        self.source(got, ct)
        self.setters(got)
        self.tasks(ct, got)

    def source(self, got, ct):
        """source_id and input_buffer follow the current task's state"""
        W, out = self.W, self.out
        if 'state' not in got or 'lines' not in got:
            return
        sid = [r for r in self.run('source_id') if r.status == 'ret']
        st = W.newst({}, W.base_facts())
        ref = W.place('state')
        e = W.field(ref.to, 'source_id')
        want = W.I.read(st, ref.root, ref.path + (e,), e[3])
        if len(sid) != 1 or not isinstance(sid[0].ret, P):
            out.unk('%s: source_id has no single value' % self.label)
            return
        if sid[0].facts.simp(sid[0].ret) != want:
            self.bad('source_id', 'is not the source of the current task')
            return
        out.ok()
        ps = self.places('input_buffer')
        if not ps:
            out.unk('%s: input_buffer is not analysable' % self.label)
            return
        other = set()
        for r, ref in ps:
            pos = r.facts.decide(slt(c64(0), want))
            pth = plain(ref.path)
            if pos is None:
                self.bad('input_buffer', 'does not depend on the current source')
            elif pos:
                ok = prefix(got['lines'], pth) and [x for x in pth if x[0] == 'i'][-1:] and \
                    r.facts.simp(sub([x for x in pth if x[0] == 'i'][-1][1], want)) == c64(-1)
                if not ok:
                    self.bad('input_buffer', 'is not the line of the current source file')
                else:
                    out.ok()
            else:
                ix = [x[1] for x in pth if x[0] == 'i']
                if len(ix) != 1 or r.facts.simp(ix[0]) != r.facts.simp(ct) or any(prefix(pth, g) for g in got.values()):
                    self.bad('input_buffer', 'is not the own buffer of the current task')
                else:
                    out.ok()
                other.add(pth)
        if len(other) != 1:
            self.bad('input_buffer', 'has %d own places' % len(other))

    def setters(self, got):
        W, out = self.W, self.out
        watch = [m for m in list(got) + ['last_error', 'handler', 'current_task'] if W.has(m)]
        for s, g, opt in (('set_output_buffer', 'output_buffer', True), ('set_last_token', 'last_token', True),
                          ('set_input_buffer', 'input_buffer', True), ('set_error', 'last_error', False), ('set_handler', 'handler', False)):
            if not W.has(s):
                out.unk('%s: no %s' % (self.label, s))
                continue
            f = W.fn(s)
            arg = W.I.symval(('arg', 1), f.locals[2])
            rs = self.run(s, [arg])
            for r in rs:
                if r.status == 'unsup':
                    out.unk('%s: %s: %s' % (self.label, s, str(r.why)[:120]))
                if r.status != 'ret':
                    continue
                gs = [q for q in self.run(g, heap=r.heap, facts=r.facts) if q.status == 'ret']
                if not gs:
                    out.unk('%s: %s: not readable afterwards' % (self.label, s))
                    continue
                miss = False
                for q in gs:
                    v = q.ret
                    if isinstance(v, Ref):
                        v = W.I.read(q, v.root, v.path, v.to)
                    if opt:
                        n = W.I.valname(v.f[0]) if isinstance(v, Ag) and v.var == 1 else None
                    else:
                        n = W.I.valname(v)
                    miss = miss or n != W.I.valname(arg)
                if miss:
                    self.bad(s, 'does not set what %s reads' % g)
                    continue
                if len(gs) != 1:
                    out.ok()
                    continue
                st0 = W.newst({}, r.facts)
                for m in watch:
                    if m == g or g == 'input_buffer' and m == 'lines':
                        continue
                    if self.value(m, r) != self.value(m, st0):
                        self.bad(s, 'changes what %s reads' % m)
                        break
                else:
                    out.ok()

    def tasks(self, ct, got):
        W, out = self.W, self.out
        i = sym(('arg', 1), 64)
        j = sym(('arg', 'j'), 64)
        for r in self.run('set_current_task', [i]):
            if r.status != 'ret':
                out.unk('%s: set_current_task: %s' % (self.label, str(r.why)[:120]))
                continue
            inr = r.facts.decide(ult(i, c64(NT)))
            v = self.value('current_task', r)
            if inr is None:
                if v != ct:
                    self.bad('set_current_task', 'accepts a task number without checking it')
            elif v != r.facts.simp(i if inr else ct):
                self.bad('set_current_task', 'task %s the range: current task becomes %s' % ('in' if inr else 'outside', show(v) if isinstance(v, P) else v))
            else:
                out.ok()
        tasks = None
        for r in self.run('awake', [i]):
            if r.status != 'ret':
                if r.status == 'panic':
                    self.bad('awake', 'panics for some task number')
                continue
            inr = r.facts.decide(ult(i, c64(NT)))
            if inr is False and r.ret is not False:
                self.bad('awake', 'a task outside the range is awake')
            elif inr is None:
                self.bad('awake', 'does not check the task number')
            elif inr:
                if isinstance(r.ret, bool):
                    self.bad('awake', 'is a constant')
                else:
                    tasks = r.ret
                    out.ok()
            else:
                out.ok()
        f = W.fn('set_awake')
        v = W.I.symval(('arg', 2), f.locals[3])
        for r in self.run('set_awake', [i, v]):
            if r.status != 'ret':
                if r.status == 'panic':
                    self.bad('set_awake', 'panics for some task number')
                continue
            inr = r.facts.decide(ult(i, c64(NT)))
            if inr is None:
                self.bad('set_awake', 'does not check the task number')
                continue
            if not inr:
                if r.heap.get(W.root) is not None and self.changed(r):
                    self.bad('set_awake', 'a number outside the range changes something')
                else:
                    out.ok()
                continue
            g = [q for q in self.run('awake', [i], heap=r.heap, facts=r.facts) if q.status == 'ret']
            if len(g) != 1 or W.I.valname(g[0].ret) != W.I.valname(v):
                self.bad('set_awake', 'does not set the flag of the named task')
                continue
            # another task keeps its flag
            fx = r.facts.assume(ult(j, c64(NT)))
            fx = fx and fx.assume(bneg(eq(i, j)))
            st0 = W.newst({}, fx)
            a = [q.ret for q in self.run('awake', [j], heap=r.heap, facts=fx) if q.status == 'ret']
            b = [q.ret for q in self.run('awake', [j], heap={}, facts=fx) if q.status == 'ret']
            if [W.I.valname(x) for x in a] != [W.I.valname(x) for x in b]:
                self.bad('set_awake', 'changes the flag of another task')
                continue
            for m in got:
                fx = r.facts.assume(bneg(eq(i, ct)))
                if fx is not None and self.value(m, r, facts=fx) != self.value(m, st0, facts=fx):
                    self.bad('set_awake', 'changes what %s reads' % m)
                    break
            else:
                out.ok()

        for r in self.run('set_awake', [ct, v]):
            for m in got:
                if r.status == 'ret' and self.value(m, r) != self.value(m, W.newst({}, r.facts)):
                    self.bad('set_awake', 'changes what %s reads' % m)
                    break

    def changed(self, r):
        W = self.W
        st0 = W.newst({}, r.facts)
        return any(self.value(m, r) != self.value(m, st0) for m in SHARED + TASK + ['current_task', 'last_error', 'handler'] if W.has(m))

    def constructor(self):
        """new() registers every word group once, the kernel first, and loads the library last"""
        W, out = self.W, self.out
        c = [f for f in W.p.fns if f.local and f.name.endswith('VM::new') and f.locals and f.locals[0] == W.vmty]
        if len(c) != 1:
            out.unk('%s: constructor not found' % self.label)
            return
        f = c[0]
        bl = W.p.compile(f)
        order, seen, b = [], set(), 0
        names = {W.fid(g): g for g in GROUPS + ['load_core_fth'] if W.has(g)}

        def reach(f, trail):
            """groups called, in order, along the normal path"""
            res, b, seen = [], 0, set()
            bl = W.p.compile(f)
            while b is not None and b not in seen:
                seen.add(b)
                st, t = bl[b]
                if t[0] == 'call':
                    y = t[-1]
                    if isinstance(y, int):
                        if y in names:
                            res.append(names[y])
                        elif W.p.fns[y].local and y not in trail and (W.p.fns[y].raw is not None or W.p.fns[y].blocks is not None):
                            res += reach(W.p.fns[y], trail | {y})
                    b = t[5]
                elif t[0] == 'goto':
                    b = t[2]
                elif t[0] in ('drop',):
                    b = t[3]
                elif t[0] == 'assert':
                    b = t[5]
                else:
                    break
            return res
        order = reach(f, {f.id})
        where = '%s:%s' % (f.file[0], f.file[1]) if isinstance(f.file, (list, tuple)) else '?'
        for g in GROUPS:
            if order.count(g) != 1:
                out.bad('%s: %s' % (self.label, g), where, 'the constructor registers the group %d times' % order.count(g))
            else:
                out.ok()
        if order[:1] != ['add_core']:
            out.bad('%s: add_core' % self.label, where, 'the kernel words are not registered first')
        if order.count('load_core_fth') != 1 or order[-1:] != ['load_core_fth']:
            out.bad('%s: load_core_fth' % self.label, where, 'the library is not loaded once, after all groups')
        out.functions.add(f.name)


@rule('C12', 'ownership in every embedding')
def _(ctx, out, tier):
    e = Emb(ctx.W, out, 'mock_vm')
    e.check()
    e.constructor()
    todo = [('rtf', 'bin:rtf', 'VM')]
    if tier == 'thorough':
        todo.append(('examples', 'example:multitask', 'vm::VM'))
    for label, what, vm in todo:
        try:
            W = World(extract.extract(what), vm)
        except extract.ExtractError as x:
            out.unk('%s: %s' % (label, str(x)[-300:]))
            continue
        finally:
            extract.cleanup()
        e = Emb(W, out, label)
        e.check()
        e.constructor()
