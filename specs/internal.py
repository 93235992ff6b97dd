"""text interpreter loop, threaded-code loop, exit from loops"""
import os

import extract
import models
from base import *
from core_text import SRC

STEPS = 2


def call(s, name, *a):
    h_call(name)(s.I, s.st, None, [None] + list(a), None)


def pending(s):
    le = s.error_ref()
    n, _ = s.variant(s.rd(le), le.to)
    return n != 'None'


@word('fn:evaluate_input', 'C14 C22', opaque=('compile_token', 'interpret_token', 'run', 'check_stacks'), unroll=STEPS)
def _(s):
    k = 0
    while True:
        s.call('parse_word')
        if s.cond(eq(s.strlen(s.rd(s.token())), c64(0))):
            return
        call(s, 'compile_token' if s.cond(s.state('is_compiling')) else 'interpret_token')
        if pending(s):
            return
        call(s, 'run')
        call(s, 'check_stacks')
        if pending(s):
            return
        k += 1
        if k > STEPS:
            raise Bound()


@word('fn:run', 'C07 C01', unroll=STEPS)
def _(s):
    k = 0
    while True:
        ip = s.ip
        if not (s.cond(ule(s.start(), ip)) and s.cond(ule(ip, addc(s.limit(), -8)))):
            return
        w = s.load(ip, 'Usize')
        s.ip = addc(ip, 8)
        s.exec(w)
        k += 1
        if k > STEPS:
            raise Bound()


LEVELS = 5


@word('fn:compile_leave', 'C06', opts=('aligned',), unroll=LEVELS)
def _(s, xt):
    """compiles the word when some open structure is a counted loop, aborts otherwise"""
    do = [int(v['discr']) for v in s.W.T[s.ctl_ty()]['variants'] if v['name'] == 'Do'][0]
    k = 0
    while True:
        if s.cond(eq(s.depth('c'), const(k, 8))):
            s.abort(-22)
            return
        k += 1
        if s.cond(eq(s.I.discr_of_value(s.st, s.get(k, 'c'), s.ctl_ty(), 64), c64(do))):
            s.comma(xt)
            return
        if k > LEVELS:
            raise Bound()


@word('fn:load_str', 'C23', cases=SRC, opaque=('evaluate_input',))
def _(s, text):
    ib = s.at('input_buffer')
    if not s.is_some(ib):
        raise PanicPath('expect', 'input buffer')
    s.set_state('source_index', c64(0))
    v = models.str_of(s.I, s.st, text)
    s.run('set_input_buffer', v)
    call(s, 'evaluate_input')


@word('fn:set_source', 'C23', cases=SRC)
def _(s, text):
    ib = s.at('input_buffer')
    if not s.is_some(ib):
        raise Bound()       # the host has lent the buffer out: outside the property
    s.set_state('source_index', c64(0))
    s.run('set_input_buffer', models.str_of(s.I, s.st, text))


@word('fn:push_source', 'C23', cases=SRC)
def _(s, text):
    ib = s.at('input_buffer')
    if not s.is_some(ib):
        raise Bound()       # the host has lent the buffer out: outside the property
    old = models.str_of(s.I, s.st, s.rd(s.payref(ib)))
    s.run('set_input_buffer', Str(models.norm_pieces(old.p + models.str_of(s.I, s.st, text).p)))


@word('fn:load_core_fth', 'C20', opaque=('load_str',))
def _(s):
    """the whole library source is interpreted; a library that fails to load is reported, not ignored"""
    with open(os.path.join(extract.REPO, 'core.fth'), 'rb') as f:
        text = f.read()
    call(s, 'load_str', Ref(('str', text), (), c64(len(text)), None))
    if pending(s):
        raise PanicPath('panic', 'the library failed to load')
