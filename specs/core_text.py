"""parsing, tokens and the text interpreter"""
from base import *
import vm

K = 2                   # iterations of a scanning loop that are followed exactly
WS = (9, 10, 13, 32)


def tok_set(s, pieces):
    s.wr(s.token(), Str(tuple(pieces)))


def scan(s):
    """characters of the input from the source index on (None: no usable input)"""
    ib = s.at('input_buffer')
    if not s.is_some(ib):
        return None
    r = s.sub(s.payref(ib), s.state('source_index'))
    return None if r is None else s.text(r)


def advance(s, n):
    s.set_state('source_index', add(s.state('source_index'), n))


def is_ws(s, c):
    return any(s.cond(eq(c, const(w, 32))) for w in WS)


def console(s, A):
    """input comes from the terminal buffer"""
    A(eq(s.state('source_id'), c64(0)))


def file_source(s, A):
    """input comes from the line buffer of an open source file"""
    A(slt(c64(0), s.state('source_id')))
    A(ule(s.state('source_id'), models.vec_len(s.I, s.st, s.at('lines'))))


SRC = [console, file_source]


@word(['fn:parse_word', 'parse-word'], 'C14 C09', cases=SRC, unroll=K)
def _(s):
    t = scan(s)
    out = []
    if t is not None:
        k = 0
        while True:
            x = t.next()
            if x is None:
                advance(s, t.n)
                break
            k += 1
            if is_ws(s, x[1]):
                if out:
                    advance(s, x[0])
                    break
            else:
                out.append(('ch', x[1]))
            if k > K:
                raise Bound()
    tok_set(s, out)


def parse(s, v):
    t = scan(s)
    out = []
    if t is not None:
        k = 0
        while True:
            x = t.next()
            if x is None:
                advance(s, t.n)
                break
            k += 1
            if s.cond(eq(zext(x[1], 64), v)):
                y = t.next()
                advance(s, t.n if y is None else y[0])
                break
            out.append(('ch', x[1]))
            if k > K:
                raise Bound()
    tok_set(s, out)


@word('parse', 'C14 C09', s=1, cases=SRC, unroll=K)
def _(s):
    parse(s, s.pop())


@word('_skip', 'C14 C09', s=1, cases=SRC, unroll=K)
def _(s):
    v = s.pop()
    t = scan(s)
    if t is None:
        return
    k = 0
    while True:
        x = t.next()
        if x is None or not s.cond(eq(zext(x[1], 64), v)):
            advance(s, t.n if x is None else x[0])
            return
        k += 1
        if k > K:
            raise Bound()


@word('(', 'C14 C09', cases=SRC, unroll=K)
def _(s):
    parse(s, c64(41))


@word('\\', 'C14 C09', cases=SRC, unroll=K)
def _(s):
    parse(s, c64(10))


def char(s):
    s.call('parse_word')
    t = s.text(s.token()).next()
    if t is None:
        s.abort(-39)
    return zext(t[1], 64)


@word('char', 'C14 C10')
def _(s):
    s.push(char(s))


@word('[char]', 'C14 C10', opts=('aligned',))
def _(s):
    v = char(s)
    s.comma(s.ref('idx_lit'))
    s.comma(v)


# ---------------------------------------------------------------- tokens

@word('token-empty?', 'C14')
def _(s):
    s.flag(eq(s.strlen(s.rd(s.token())), c64(0)))


def out(s):
    """the output buffer, or None"""
    o = s.at('output_buffer')
    return s.payref(o) if s.is_some(o) else None


def put(s, r, *pieces):
    models.append(s.I, s.st, r, pieces)


def textof(s, ref):
    return list(models.str_of(s.I, s.st, ref).p)


@word('.token', 'C25', opts=('anyerror',))
def _(s):
    o = out(s)
    if o is not None:
        put(s, o, *textof(s, s.rd(s.token())))


@word('!token', 'C01 C10', s=1)
def _(s):
    a = s.pop()
    t = s.rd(s.token())
    n = s.strlen(t)
    k = n if s.cond(ult(n, c64(256))) else c64(255)
    if not (s.cond(ule(s.start(), a)) and s.cond(ule(a, s.limit())) and s.cond(ule(addc(k, 8), sub(s.limit(), a)))):
        s.abort(-9)
    h_put_cstr(s.I, s.st, None, [None, t, a], None)
    s.wr(s.token(), Str(()))


def word_exec(s, xt):
    s.exec(xt)


def number(s, text):
    """integer, else float, else an undefined word"""
    err = s.error_ref()
    s.none(err)
    s.call('evaluate_integer', text)
    if s.opt(err) is None:
        return
    s.none(err)
    s.call('evaluate_float', text)
    if s.opt(err) is None:
        return
    s.abort(-13)


@word('compile-token', 'C14 C10', opts=('anyerror',))
def _(s):
    from core_comp import find_token
    xt = find_token(s)
    if xt is None:
        number(s, s.rd(s.token()))
    elif s.cond(s.wget(xt, 'is_immediate')):
        s.exec(xt)
    else:
        s.icall(s.wget(xt, 'compilation_semantics'), xt)


@word('interpret-token', 'C14 C10', opts=('anyerror',))
def _(s):
    from core_comp import find_token
    xt = find_token(s)
    if xt is None:
        number(s, s.rd(s.token()))
    elif s.cond(s.wget(xt, 'is_compile_only')):
        s.abort(-14)
    else:
        s.exec(xt)
