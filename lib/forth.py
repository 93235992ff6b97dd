"""Forth source of the library: reader, and interpreter over the abstract machine.

A colon definition is read into a structured program (if/begin/do/case), which is interpreted on the same abstract
machine state as the references of the primitives; primitives act by their reference transfer functions, which the
checks of the other properties compare with the code."""
import re
from spec import *
import base


class ForthError(Exception):
    """the source itself is malformed: unknown word, unbalanced structure"""


class Beyond(ForthError):
    """the source may be right but this reader does not follow it"""


class Exit(Exception):
    pass


class Leave(Exception):
    pass


def leaves(nodes):
    """does the body contain an exit of its own"""
    for n in nodes or ():
        if isinstance(n, tuple) and n and n[0] == 'exit':
            return True
        if isinstance(n, (tuple, list)) and leaves([e for e in n if isinstance(e, (tuple, list))]):
            return True
    return False


class Def:
    def __init__(self, name, kind, line, body=None, **kw):
        self.name, self.kind, self.line, self.body = name, kind, line, body
        self.immediate = self.compile_only = False
        self.does = None
        self.value = None
        self.size = 0
        self.cells = {}          # initial contents, by offset
        self.__dict__.update(kw)


def tokens(text):
    """(token, line, rest-of-input offset)"""
    i, line, n = 0, 1, len(text)
    out = []
    while i < n:
        c = text[i]
        if c == '\n':
            line += 1
        if c in ' \t\r\n':
            i += 1
            continue
        j = i
        while j < n and text[j] not in ' \t\r\n':
            j += 1
        t = text[i:j]
        if t == '\\':
            j = text.find('\n', i)
            i = n if j < 0 else j
            continue
        if t == '(':
            k = text.find(')', j)
            if k < 0:
                k = n
            line += text.count('\n', i, k)
            i = k + 1
            continue
        if t.lower() in ('s"', '."', '.('):
            e = ')' if t == '.(' else '"'
            k = text.find(e, j + 1)
            if k < 0:
                raise ForthError('line %d: string without end' % line)
            out.append((t.lower(), line, text[j + 1:k]))
            i = k + 1
            continue
        out.append((t, line, None))
        i = j
    return out


def number(t):
    m = re.fullmatch(r'([$#%]?)(-?)([0-9a-zA-Z]+)', t)
    if m:
        b = {'$': 16, '#': 10, '%': 2, '': 10}[m.group(1)]
        try:
            v = int(m.group(3), b)
            return ('num', -v if m.group(2) else v)
        except ValueError:
            pass
    m = re.fullmatch(r'([+-]?\d+(?:\.\d*)?)[eE]([+-]?\d*)', t)
    if m:
        return ('flt', float(m.group(1) + 'e' + (m.group(2) or '0')))
    if len(t) == 3 and t[0] == t[2] == "'":
        return ('num', ord(t[1]))
    return None


CONTROL = {'if', 'else', 'then', 'begin', 'while', 'repeat', 'until', 'again', 'do', '?do', 'loop', '+loop', 'case', 'of', 'endof', 'endcase'}

UNARY = {'2*': lambda a: 2 * a, 'cells': lambda a: 8 * a, 'floats': lambda a: 8 * a, '1+': lambda a: a + 1, '1-': lambda a: a - 1, 'cell+': lambda a: a + 8,
         'char+': lambda a: a + 1, 'chars': lambda a: a, 'negate': lambda a: -a, 'invert': lambda a: ~a}
BINARY = {'*': lambda a, b: a * b, '+': lambda a, b: a + b, '-': lambda a, b: a - b, 'lshift': lambda a, b: a << (b & 63), 'or': lambda a, b: a | b,
          'and': lambda a, b: a & b, 'xor': lambda a, b: a ^ b}


def wrap(n):
    return (n + (1 << 63)) % (1 << 64) - (1 << 63)


class Library:
    def __init__(self, ctx, text):
        self.ctx = ctx
        self.defs = {}          # name -> Def, newest
        self.order = []
        self.problems = []      # (line, what): errors in the source
        self.beyond = []        # (line, what): places that could not be followed
        self.read(text)

    def known(self, name):
        return name in self.defs or name in self.ctx.by

    # ---------------------------------------------------------------- reader
    def read(self, text):
        self.tk = tokens(text)
        self.p = 0
        self.stack = []
        self.last = None
        self.store = {}
        while self.p < len(self.tk):
            t, line, arg = self.tk[self.p]
            self.p += 1
            w = t.lower()
            try:
                if w == ':':
                    self.colon(line)
                else:
                    self.top(w, line, arg)
            except ForthError as e:
                lost = self.beyond or self.ctx.problems          # what follows may rest on what was not followed
                (self.beyond if lost or isinstance(e, Beyond) else self.problems).append((line, str(e)))
                if w == ':':
                    while self.p < len(self.tk) and self.tk[self.p - 1][0] != ';':
                        self.p += 1

    def next(self, what):
        if self.p >= len(self.tk):
            raise ForthError('%s: end of source' % what)
        t = self.tk[self.p]
        self.p += 1
        return t

    def add(self, d):
        self.defs[d.name] = d
        self.order.append(d)
        self.last = d

    def colon(self, line):
        name = self.next(':')[0].lower()
        d = Def(name, 'colon', line)
        d.deps = dict(self.defs)
        d.first = self.p
        body, end = self.block(d, (';',))
        d.body = body
        d.last = self.p - 1
        self.add(d)

    def block(self, d, ends):
        """nodes up to one of the closing words"""
        out = []
        while True:
            t, line, arg = self.next(d.name)
            w = t.lower()
            if w in ends:
                return out, w
            if w == 'if':
                a, e = self.block(d, ('else', 'then'))
                b = []
                if e == 'else':
                    b, e = self.block(d, ('then',))
                out.append(('if', a, b))
            elif w == 'begin':
                a, e = self.block(d, ('while', 'until', 'again'))
                if e == 'while':
                    b, e = self.block(d, ('repeat',))
                    out.append(('while', a, b))
                else:
                    out.append((e, a))
            elif w in ('do', '?do'):
                a, e = self.block(d, ('loop', '+loop'))
                out.append(('do', w, a, e))
            elif w == 'case':
                arms, tail = [], []
                while True:
                    a, e = self.block(d, ('of', 'endcase'))
                    if e == 'endcase':
                        out.append(('case', arms, a))
                        break
                    b, e = self.block(d, ('endof',))
                    arms.append((a, b))
            elif w in CONTROL or w == ';':
                raise ForthError('%s: %s does not match the open structure' % (d.name, w))
            elif w == 'does>':
                out.append(('does',))
                d.does, e = self.block(d, ends)
                return out, e
            elif w == '[char]':
                out.append(('num', ord(self.next(w)[0][0])))
            elif w == "[']":
                x = self.next(w)[0].lower()
                if x not in d.deps and x not in self.ctx.by:
                    raise ForthError('%s: [\'] %s: undefined word' % (d.name, x))
                out.append(('xt', x))
            elif w == 'postpone':
                x = self.next(w)[0].lower()
                if x not in d.deps and x not in self.ctx.by:
                    raise ForthError('%s: postpone %s: undefined word' % (d.name, x))
                out.append(('postpone', x))
            elif w == 'recurse':
                out.append(('self',))
            elif w == 'exit':
                out.append(('exit',))
            elif w in ('s"', '."'):
                out.append((w, arg))
            else:
                x = d.deps.get(w)
                if x is not None:
                    if x.immediate:
                        if x.kind == 'colon' and not x.body:
                            continue            # an immediate word that does nothing
                        raise Beyond('%s: immediate library word %s is not understood' % (d.name, w))
                    out.append(('w', w, line))
                elif w == '[':
                    rest = [x[0].lower() for x in self.tk[self.p:self.p + 200]]
                    if ']' not in rest or ';' in rest[:rest.index(']')]:
                        raise ForthError('%s: [ leaves compilation state and nothing returns to it' % d.name)
                    raise Beyond('%s: computation between [ and ] is not understood' % d.name)
                elif w in self.ctx.by:
                    out.append(('w', w, line))
                else:
                    n = number(t)
                    if n is None:
                        raise ForthError('%s: %s: undefined word' % (d.name, t))
                    out.append(n)

    # ---------------------------------------------------------------- load time
    def pop(self):
        if not self.stack:
            raise Beyond('load-time stack is empty')
        return self.stack.pop()

    def num(self, v):
        if not isinstance(v, int):
            raise Beyond('%r is not a number known while loading' % (v,))
        return v

    def top(self, w, line, arg):
        S_ = self.stack
        if w == 'immediate':
            self.last.immediate = True
        elif w == 'compile-only':
            self.last.compile_only = True
        elif w == 'constant':
            self.add(Def(self.next(w)[0].lower(), 'const', line, value=self.pop()))
        elif w == 'variable':
            self.add(Def(self.next(w)[0].lower(), 'data', line, size=8, cells={0: 0}))
        elif w == 'create':
            self.add(Def(self.next(w)[0].lower(), 'data', line, size=0))
        elif w == 'defer':
            self.add(Def(self.next(w)[0].lower(), 'defer', line, size=8, cells={0: ('xt', 'noop')}))
        elif w == ',':
            self.last.cells[self.last.size] = self.pop()
            self.last.size += 8
        elif w == 'allot':
            n = self.pop()
            if not isinstance(n, int):
                raise Beyond('allot of an unknown amount')
            self.last.size += n
        elif w == '!':
            a, v = self.pop(), self.pop()
            if not (isinstance(a, tuple) and a[0] == 'addr'):
                raise Beyond('! to an unknown address')
            self.defs[a[1]].cells[a[2]] = v
        elif w == "'":
            x = self.next(w)[0].lower()
            if not self.known(x):
                raise ForthError("' %s: undefined word" % x)
            S_.append(('xt', x))
        elif w == 'defer!':
            a, v = self.pop(), self.pop()
            if not (isinstance(a, tuple) and a[0] == 'xt' and a[1] in self.defs):
                raise Beyond('defer! to an unknown word')
            self.defs[a[1]].cells[0] = v
        elif w == 'marker':
            self.add(Def(self.next(w)[0].lower(), 'marker', line))
        elif w in UNARY:
            a = self.pop()
            if isinstance(a, tuple) and a[0] == 'addr' and w in ('1+', '1-', 'cell+', 'char+'):
                S_.append(('addr', a[1], a[2] + UNARY[w](0)))
            else:
                S_.append(wrap(UNARY[w](self.num(a))))
        elif w in BINARY:
            b, a = self.pop(), self.pop()
            if w == '+' and isinstance(b, tuple):
                a, b = b, a
            if w in '+-' and isinstance(a, tuple) and a[0] == 'addr':
                S_.append(('addr', a[1], a[2] + (self.num(b) if w == '+' else -self.num(b))))
            else:
                S_.append(wrap(BINARY[w](self.num(a), self.num(b))))
        elif w == 'dup':
            a = self.pop()
            S_ += [a, a]
        elif w == 'drop':
            self.pop()
        elif w == 'swap':
            b, a = self.pop(), self.pop()
            S_ += [b, a]
        elif w in ('true', 'false'):
            S_.append(-1 if w == 'true' else 0)
        elif w == 'char':
            S_.append(ord(self.next(w)[0][0]))
        elif w in self.defs and self.defs[w].kind == 'data':
            S_.append(('addr', w, 0))
        elif w in self.defs and self.defs[w].kind == 'const':
            S_.append(self.defs[w].value)
        else:
            n = number(w)
            if n is None or n[0] != 'num':
                if not self.known(w) and not (n is not None):
                    raise ForthError('%s: undefined word' % w)
                raise Beyond('load-time word %s is not understood' % w)
            S_.append(n[1])

    # ---------------------------------------------------------------- machine
    def body_addr(self, name):
        return sym(('body', name), 64)

    def layout(self, s, A, names):
        """data words lie in the dictionary, in order, apart from each other"""
        lo = addc(s.start(), 16)
        for d in self.order:
            if d.kind in ('data', 'defer') and d.name in names:
                a = self.body_addr(d.name)
                A(ule(lo, a))
                A(ule(a, addc(s.limit(), -(PAGE_SLACK + 64))))
                A(eq(band(a, c64(7)), c64(0)))
                lo = addc(a, d.size)
                A(ule(lo, s.here()))

    def uses(self, d, acc=None):
        """library words a definition refers to, directly or not"""
        acc = set() if acc is None else acc

        def go(l):
            for n in l or ():
                if n[0] in ('w', 'xt', 'postpone') and n[1] in d.deps:
                    x = d.deps[n[1]]
                    if x.name not in acc:
                        acc.add(x.name)
                        if x.kind == 'colon':
                            self.uses(x, acc)
                for e in n[1:]:
                    if isinstance(e, list):
                        go([y for y in e if isinstance(y, tuple) and y and isinstance(y[0], str)])
                        for y in e:
                            if isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], list):
                                go(y[0])
                                go(y[1])
        go(d.body)
        go(d.does)
        return acc

    def perform(self, s, d, opaque, limit, body=None):
        """run a definition on the machine"""
        if d.kind == 'const':
            s.push(c64(d.value) if isinstance(d.value, int) else self.value(s, d.value))
            return
        if d.kind == 'data':
            s.push(self.body_addr(d.name))
            return
        if d.kind == 'defer':
            run_xt(s, s.load(self.body_addr(d.name)))
            return
        if d.kind != 'colon':
            raise Unsup('library word %s' % d.name)
        try:
            self.seq(s, d, d.body if body is None else body, opaque, limit)
        except Exit:
            pass

    def value(self, s, v):
        if isinstance(v, int):
            return c64(v)
        if v[0] == 'xt':
            return sym(('xt', v[1]), 64)
        return addc(self.body_addr(v[1]), v[2])

    def seq(self, s, d, nodes, opaque, limit):
        for n in nodes:
            k = n[0]
            if k == 'num':
                s.push(c64(n[1]))
            elif k == 'flt':
                s.fpush(models.fconst(n[1]) if hasattr(models, 'fconst') else Fl(('c', struct.unpack('<Q', struct.pack('<d', n[1]))[0])))
            elif k == 'xt':
                s.push(sym(('xt', n[1]), 64))
            elif k == 'postpone':
                self.postpone(s, d, n[1])
            elif k == 'does':
                (called if '_does' in opaque else prim)(s, '_does')
                raise Exit()
            elif k == 'exit':
                raise Exit()
            elif k == 'self':
                raise Unsup('recursion')
            elif k == 'w':
                self.do_word(s, d, n[1], opaque, limit)
            elif k == 'if':
                if not s.cond(eq(s.pop(), c64(0))):
                    self.seq(s, d, n[1], opaque, limit)
                else:
                    self.seq(s, d, n[2], opaque, limit)
            elif k == 'while':
                i = 0
                while True:
                    self.seq(s, d, n[1], opaque, limit)
                    if s.cond(eq(s.pop(), c64(0))):
                        break
                    self.seq(s, d, n[2], opaque, limit)
                    i += 1
                    if i > limit:
                        raise Bound()
            elif k == 'until':
                i = 0
                while True:
                    self.seq(s, d, n[1], opaque, limit)
                    c = eq(s.pop(), c64(0))
                    if not s.cond(c):
                        break
                    i += 1
                    if n[1] and n[1][-1][:2] in (('num', 0), ('w', 'false')) and i == 3:
                        s.stop()            # never true: endless
                    if i > limit:
                        raise Bound()
            elif k == 'again':
                if leaves(n[1]):
                    for i in range(limit + 1):
                        self.seq(s, d, n[1], opaque, limit)
                    raise Bound()
                for i in range(3):
                    self.seq(s, d, n[1], opaque, limit)
                s.stop()                    # the endless loop is followed this far
            elif k == 'do':
                self.loop(s, d, n, opaque, limit)
            elif k == 'case':
                self.case(s, d, n, opaque, limit)
            else:
                raise Unsup('library node %s' % k)

    def loop(self, s, d, n, opaque, limit):
        lim, ix = s.pops(2)
        if n[1] == '?do' and s.cond(eq(lim, ix)):
            return
        MIN = c64(1 << 63)
        s.rpush(s.ip)
        rt = sub(add(MIN, ix), lim)
        s.rpush(sub(ix, rt))
        s.rpush(rt)
        i = 0
        while True:
            try:
                self.seq(s, d, n[2], opaque, limit)
            except Leave:
                s.pops(3, 'r')
                return
            inc = s.pop() if n[3] == '+loop' else c64(1)
            rt = s.get(1, 'r')
            if s.cond(terms.sat_overflow('Add', True, rt, inc)):
                s.pops(3, 'r')
                return
            s.put(1, add(rt, inc), 'r')
            i += 1
            if i > limit:
                raise Bound()

    def case(self, s, d, n, opaque, limit):
        for a, b in n[1]:
            self.seq(s, d, a, opaque, limit)
            x = s.pop()
            if s.cond(eq(x, s.get(1))):
                s.pop()
                self.seq(s, d, b, opaque, limit)
                return
        self.seq(s, d, n[2], opaque, limit)
        s.pop()

    def postpone(self, s, d, w):
        x = d.deps.get(w)
        if x is not None:
            if x.immediate:
                raise Unsup('postpone of the immediate library word %s' % w)
            s.comma(sym(('xt', w), 64))
            return
        e = self.ctx.by[w]
        if e.immediate:
            prim(s, w)
        else:
            s.comma(sym(('xt', w), 64))

    def do_word(self, s, d, w, opaque, limit):
        if w in opaque or w in FRAMES:
            called(s, w)
            return
        x = d.deps.get(w)
        if x is not None:
            # a loop of a word it uses is followed at least eight times
            self.perform(s, x, opaque, max(limit, 8))
            return
        if w == 'leave':
            raise Leave()
        if w == 'move':
            move(s)
            return
        if w == 'execute':
            run_xt(s, s.pop())
            return
        prim(s, w)


# words that take so many cells from the data stack and leave so many, and do not look at the stacks otherwise
FRAMES = {'create': (0, 0), '_skip': (1, 0), 'parse': (1, 0), '!token': (1, 0), '(xtime)': (2, 0), 'pause': (0, 0), 'source-id!': (1, 0),
          'source-idx!': (1, 0), 'load-line': (1, 2), 'flush-output': (0, 0), 'open-file': (3, 2), 'open-source': (3, 1), 'close-source': (1, 0),
          'parse-word': (0, 0), '?stacks': (0, 0), 'save-source': (0, 0), 'restore-source': (0, 0), 'word': (1, 1), '_dump': (2, 0), '_type': (2, 0)}

# of these, the ones that write no cell of the data space nor move its pointer
READERS = {'_skip', 'parse', 'parse-word', '(xtime)', 'source-id!', 'source-idx!', 'load-line', 'flush-output', 'open-file', 'open-source',
           'close-source', '?stacks', '_dump', '_type'}


def called(s, w):
    """a word whose own reference decides it; here only that it runs, when, and in which state"""
    sig = FRAMES.get(w)
    if sig is None:
        h_call(w)(s.I, s.st, None, [None], None)
        settle(s)
        return
    W, I, st = s.W, s.I, s.st
    args = s.pops(sig[0])
    # what lies below its arguments is none of its business
    kept = {}
    t = W.newst(dict(st.heap), st.facts)
    t.mem = st.mem
    for k in 'srfc':
        r = s.stk(k)
        kept[k] = I.read(st, r.root, r.path, r.to)
        I.write(t, r.root, r.path, Sym(('stack', k), r.to), r.to)
    I.event(st, ('CALL', w) + tuple(args) + (Snap(t),))
    hold = [] if w in ('source-id!', 'restore-source') else [('state', 'source_id')]
    if w in READERS or w == '!token':
        hold.append(('data_space', 'len'))
    hold = [(a, n, s.fget(s.at(a), n)) for a, n in hold]
    mem = st.mem
    havoc_vm(W, I, st)
    if w in READERS:
        st.mem = mem
    for a, n, v in hold:
        s.fset(s.at(a), n, v)
    n = sum(1 for e in st.events if e[0][0] == 'CALL')
    for k in 'srfc':
        r = s.stk(k)
        I.write(st, r.root, r.path, kept[k], r.to)
    # the data space still has room, and a name just created leaves its pointer aligned
    s.assume(ule(addc(s.start(), 16), s.here()))
    s.assume(ule(s.here(), addc(s.limit(), -PAGE_SLACK)))
    if w == 'create':
        s.assume(eq(band(s.here(), c64(7)), c64(0)))
    for i in range(sig[1]):
        s.push(sym(('left by', w, n, i), 64))


def run_xt(s, xt):
    s.exec(xt)
    settle(s)


def settle(s):
    """a word that has run leaves stacks that are neither under- nor overflowed"""
    for k in ('s', 'r', 'f', 'c'):
        d = s.depth(k)
        s.assume(ule(d, const(48, 8)))
        s.assume(bneg(ult(d, const(8, 8))))


def prim(s, w):
    l = base.WORDS.get(w)
    if not l:
        raise Unsup('no reference for %s' % w)
    r = l[0].fn(s)
    return r


def move(s):
    """copy bytes; the areas are valid by assumption"""
    a, d, n = s.pops(3)
    st = s.st
    a, d, n = st.facts.simp(a), st.facts.simp(d), st.facts.simp(n)
    s.I.event(st, ('copy', d, n, a, 'copy'))
    st.mem = st.mem + (('copy', d, n, a, 'copy'),)


def check(W, L, d, body, sp, fx):
    """compare every path of a library word with its reference"""
    R = Result(d.name, d.name)
    R.where = 'core.fth:%d' % d.line

    def impl(s):
        try:
            L.perform(s, d, sp.opaque, sp.unroll + sp.more, body)
        except Bound:
            s.st.status = 'beyond'
            raise SpecStop()
    cut = []
    for st in run_spec(W, impl, fx, cut=cut):
        R.paths += 1
        if st.status == 'beyond':
            # the loop runs on; so must the reference
            try:
                ends = run_spec(W, sp.fn, st.facts)
            except (Bound, Unsup):
                ends = []
            ends = [q for q in ends if not q.facts.infeasible()]
            if ends and sp.more:
                R.violations.append(viol_text(W, R, st, ends[0], ('termination', 'a loop goes on', 'the word ends here')))
            else:
                R.beyond += 1
                R.paths -= 1
            continue
        W.impl = st
        try:
            specs = run_spec(W, sp.fn, st.facts)
        except Bound:
            R.beyond += 1
            R.paths -= 1
            continue
        except Unsup as e:
            R.undecided.append('reference not applicable: %s' % e)
            continue
        okp = True
        for q in specs:
            dd = Diff()
            try:
                compare(W, st, q, dd)
            except (Unsup, Fork) as e:
                dd.unk.append(('comparison', str(e), ''))
            for x in dd.bad:
                okp = False
                R.violations.append(viol_text(W, R, st, q, x))
            for x in dd.unk:
                okp = False
                R.undecided.append('%s: %s vs %s' % (x[0], str(x[1])[:120], str(x[2])[:120]))
        R.ok += okp
    if cut:
        R.undecided.append('too many paths: %d or more left' % cut[0])
    return R
