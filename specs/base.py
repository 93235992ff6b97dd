"""Word table: reference transfer functions keyed by Forth word name.

Each entry says what the word must do to the abstract VM; everything the reference does not
touch must be left unchanged (frame condition)."""
from spec import *

WORDS = {}          # forth name or 'fn:<method>' -> WordSpec


INTERNAL = ('fn', 'ds', 'wl', 'stk', 'fun', 'dbg')


# Words that ask whether a step before them failed; they are judged with no exception pending at entry. All
# other words mean the same while an exception is pending, as it is when the error handler runs them.
ASK_ERROR = set(''': create constant fconstant marker char [char] ' ['] postpone parse-word
fn:define fn:parse_word fn:evaluate_input fn:evaluate_integer fn:evaluate_float fn:load_str fn:load_core_fth'''.split())


class WordSpec:
    def __init__(self, name, props, fn, need, opts, kw):
        self.name, self.props, self.fn, self.need, self.opts, self.kw = name, props, fn, need or {}, tuple(opts) + (() if name in ASK_ERROR or 'anyerror' in opts else ('anyerror',)), kw


def word(name, props, s=0, r=0, f=0, c=0, opts=(), extra=4, **kw):
    """register the reference of a word needing s/r/f/c items on the stacks"""
    need = {}
    for k, v in (('s', s), ('r', r), ('f', f), ('c', c)):
        need[k] = v if isinstance(v, tuple) else (v, extra)
    if isinstance(props, str):
        props = props.split()

    def d(fn):
        for n in ([name] if isinstance(name, str) else name):
            WORDS.setdefault(n, []).append(WordSpec(n, props, fn, need, opts, kw))
        return fn
    return d


def simple(name, props, fn, s=0, r=0, f=0, c=0, opts=(), **kw):
    word(name, props, s, r, f, c, opts, **kw)(fn)
