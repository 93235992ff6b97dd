"""check.py <property> : decide one property on /repo's current tree and write its evidence."""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, d) for d in ('engine', 'lib', 'specs', 'rules')]
sys.setrecursionlimit(20000)

import extract                                  # noqa: E402
from spec import *                              # noqa: E402,F403
import spec as specmod                          # noqa: E402
from registry import registry                   # noqa: E402
import base                                     # noqa: E402
import aspects                                  # noqa: E402
import forth                                    # noqa: E402

SPEC_MODULES = ('core_data', 'core_ctl', 'core_comp', 'core_vm', 'core_text', 'memory', 'parser', 'floats', 'output', 'files', 'misc', 'internal', 'loader')
KNOWN = os.path.join(HERE, 'known_findings.json')


class Ctx:
    """one analysed program"""

    def __init__(self, dump, vm='mock_vm::VM'):
        self.dump = dump
        self.W = World(dump, vm)
        self.W.install_pretty()
        self.words, self.by, self.refs, self.problems = registry(self.W)

    def span(self, fid):
        f = self.W.p.fns[fid]
        return self.W.p.span(f.file) if not isinstance(f.file, (list, tuple)) else '%s:%s' % (f.file[0], f.file[1])


class Out:
    """what a rule reports"""

    def __init__(self, rule):
        self.rule = rule
        self.viol = []          # dict(key, where, what)
        self.undecided = []
        self.obligations = 0
        self.discharged = 0
        self.functions = set()
        self.samples = []
        self.notes = []

    def ok(self, n=1):
        self.obligations += n
        self.discharged += n

    def bad(self, key, where, what, **kw):
        self.obligations += 1
        self.viol.append(dict(key=key, where=where, what=what, rule=self.rule, **kw))

    def unk(self, what):
        self.obligations += 1
        self.undecided.append(what)

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)


RULES = {}          # property -> [(name, fn(ctx, out, tier))]


def rule(props, name):
    def d(fn):
        for p in props.split():
            RULES.setdefault(p, []).append((name, fn))
        return fn
    return d


def load_modules():
    for m in SPEC_MODULES:
        if os.path.exists(os.path.join(HERE, 'specs', m + '.py')):
            importlib.import_module(m)
    sys.modules.setdefault('runner', sys.modules[__name__])
    for f in sorted(os.listdir(os.path.join(HERE, 'rules'))):
        if f.endswith('.py') and f != '__init__.py':
            importlib.import_module(f[:-3])


CTX = None


def spec_task(t):
    """compare one function with its reference; returns plain data"""
    name, k, tag = t[:3]
    aspect = t[3] if len(t) > 3 else None
    ctx = CTX
    sp = base.WORDS[name][k]
    t0 = time.time()
    r = dict(name=name, variant=tag, viol=[], und=[], paths=0, ok=0, where='?', fn='?', s=0.0)
    try:
        recv = True
        if name.split(':')[0] in base.INTERNAL:
            try:
                fid, recv = ctx.W.resolve(name)
            except AnchorError:
                if sp.kw.get('optional'):
                    r['skip'] = True
                    return r
                raise
        else:
            e = ctx.by.get(name)
            if e is None:
                if sp.kw.get('alias_optional'):
                    r['skip'] = True
                    return r
                if ctx.problems:
                    r['und'].append('not among the registrations that could be followed')
                    return r
                r['viol'].append(dict(key='%s: not registered' % name, where='word registration', what='the word is missing from the dictionary'))
                return r
            fid = e.fid
        r['fn'] = ctx.W.p.fns[fid].name
        r['where'] = ctx.span(fid)
        args = sp.kw.get('args')
        R = check_word(ctx.W, name, fid, sp.fn, sp.need, sp.opts, ret=sp.kw.get('ret', False), skip=sp.kw.get('skip', ()),
                       trap=sp.kw.get('trap', True), cases=None if tag is None else [sp.kw['cases'][tag]], unroll=sp.kw.get('unroll', 0), recv=recv, opaque=sp.kw.get('opaque', ()))
        r['paths'], r['ok'] = R.paths, R.ok
        seen = set()
        if aspect == 'depth':
            nv = len(R.violations)
            R.violations = [v for v in R.violations if v['what'].split(': ')[-1].endswith('.depth')]
            R.traps = []
            R.undecided = [u for u in R.undecided if '.depth:' in u or 'path not' in u or 'reference not' in u]
            if nv and not R.violations:
                R.ok = R.paths
        for v in R.violations:
            key = '%s: %s' % (name, v['what'])
            if (key, v['got'], v['want']) in seen:
                continue
            seen.add((key, v['got'], v['want']))
            r['viol'].append(dict(key=key, where=r['where'], what='%s: code gives %s, reference gives %s' % (v['what'], v['got'], v['want']),
                                  path=v['path'], witness=v['witness'], status=v['status'], why=v['why']))
        for wh, op, w in R.traps:
            key = '%s: arithmetic overflow' % name
            if key in seen:
                continue
            seen.add(key)
            r['viol'].append(dict(key=key, where='%s' % (wh,), what='%s overflow traps (panics in checked builds)' % op, witness=w))
        r['und'] = R.undecided[:20]
        if not R.paths:
            r['und'].append('no path reached the end of the function')
    except AnchorError as e:
        r['anchor'] = str(e)
    except Exception as e:
        r['und'].append('analysis failed: %s' % (repr(e)[:300],))
        r['trace'] = traceback.format_exc()[-1500:]
    r['s'] = time.time() - t0
    return r


def aspect_task(t):
    """judge every path of a word by a rule that needs no reference"""
    asp, name, k, tag = t
    ctx = CTX
    W = ctx.W
    sp = base.WORDS[name][k]
    t0 = time.time()
    r = dict(name=name, variant=tag, viol=[], und=[], paths=0, ok=0, where='?', fn='?', s=0.0)
    try:
        recv = True
        internal = name.split(':')[0] in base.INTERNAL and name != ':'
        if internal:
            try:
                fid, recv = W.resolve(name)
            except AnchorError:
                r['skip'] = True
                return r
        elif name not in ctx.by:
            r['skip'] = True
            return r
        else:
            fid = ctx.by[name].fid
        f = W.p.fns[fid]
        r['fn'], r['where'] = f.name, ctx.span(fid)
        un = sp.kw.get('unroll', 0)
        A = aspects.TABLE[asp]
        opts = tuple(o for o in sp.opts if o not in A.drop) + A.opts
        if tag is not None:
            c = sp.kw['cases'][tag]
            c, un = c if isinstance(c, tuple) else (c, un)
            opts += (c,)
        paths, _, _ = impl_paths(W, fid, {}, opts, un, recv, sp.kw.get('opaque', ()))
        seen = set()
        for st in paths:
            if st.status in ('converged', 'beyond'):
                continue
            r['paths'] += 1
            if st.status == 'unsup':
                r['und'].append('path not analysable: %s' % st.why)
                continue
            viol, unk = A.judge(ctx, name, sp, st)
            r['und'] += unk
            for v in viol:
                if v['key'] not in seen:
                    seen.add(v['key'])
                    v.setdefault('where', r['where'])
                    v.setdefault('path', [show(x if y else bneg(x)) for x, y in st.facts.lits.items()][-6:])
                    r['viol'].append(v)
            r['ok'] += not viol and not unk
        r['und'] = r['und'][:20]
    except AnchorError as e:
        r['anchor'] = str(e)
    except Exception as e:
        r['und'].append('analysis failed: %s' % (repr(e)[:300],))
        r['trace'] = traceback.format_exc()[-1500:]
    r['s'] = time.time() - t0
    return r


def library(ctx):
    if not hasattr(ctx, 'library'):
        path = os.path.join(extract.REPO, 'core.fth')
        try:
            text = open(path, encoding='utf-8').read()
        except OSError as e:
            raise AnchorError('library source: %s' % e)
        ctx.library = forth.Library(ctx, text)
    return ctx.library


def lib_task(t):
    """compare one library word with its reference"""
    import library as ref
    name, k = t
    ctx = CTX
    W = ctx.W
    sp = ref.LIB[name][k]
    t0 = time.time()
    r = dict(name=name, variant=None, viol=[], und=[], paths=0, ok=0, where='core.fth', fn='core.fth: %s' % name, s=0.0)
    try:
        L = library(ctx)
        d = L.defs.get(name)
        if d is None:
            bad = [p for p in L.problems if p[1].startswith(name + ':')]
            if L.beyond and not bad:
                r['und'].append('not defined where the library could be followed: %s' % L.beyond[0][1])
                return r
            r['viol'].append(dict(key='%s: not defined' % name, where='core.fth' + (':%d' % bad[0][0] if bad else ''),
                                  what=bad[0][1] if bad else 'the library word is missing'))
            return r
        r['where'] = 'core.fth:%d' % d.line
        names = L.uses(d)
        fx = initial(W, sp.need, tuple(o for o in sp.opts if not callable(o)) +
                     (lambda s, A: L.layout(s, A, names),) + tuple(o for o in sp.opts if callable(o)))
        body = d.body if sp.part == 'body' else d.does
        if d.kind == 'defer' or d.kind == 'colon' and body is not None:
            pass
        else:
            r['viol'].append(dict(key='%s: not a definition with that part' % name, where=r['where'], what='%s has kind %s' % (name, d.kind)))
            return r
        R = forth.check(W, L, d, body, sp, fx)
        r['paths'], r['ok'] = R.paths, R.ok
        seen = set()
        for v in R.violations:
            key = '%s: %s' % (name, v['what'])
            if (key, v['got'], v['want']) in seen:
                continue
            seen.add((key, v['got'], v['want']))
            r['viol'].append(dict(key=key, where=r['where'], what='%s: code gives %s, reference gives %s' % (v['what'], v['got'], v['want']),
                                  path=v['path'], witness=v['witness'], status=v['status'], why=v['why']))
        r['und'] = R.undecided[:20]
        if not R.paths:
            r['und'].append('no path reached the end of the word')
    except AnchorError as e:
        r['anchor'] = str(e)
    except Exception as e:
        r['und'].append('analysis failed: %s' % (repr(e)[:300],))
        r['trace'] = traceback.format_exc()[-1500:]
    r['s'] = time.time() - t0
    return r


def rule_task(t):
    prop, i, tier = t
    name, fn = RULES[prop][i]
    o = Out(name)
    t0 = time.time()
    err = None
    try:
        fn(CTX, o, tier)
    except AnchorError as e:
        err = 'anchor missing: %s' % e
    except Exception as e:
        err = 'rule failed: %r' % (e,)
        o.notes.append(traceback.format_exc()[-2000:])
    return dict(rule=name, viol=o.viol, und=o.undecided, obl=o.obligations, dis=o.discharged, fns=sorted(o.functions),
                samples=o.samples, notes=o.notes, err=err, s=time.time() - t0)


def task(t):
    if t[0] == 'lib':
        return ('spec', lib_task(t[1]))
    if t[0] == 'aspect':
        return ('spec', spec_task(t[1][1:] + ('depth',)) if t[1][0] == 'depth' else aspect_task(t[1]))
    return ('spec', spec_task(t[1])) if t[0] == 'spec' else ('rule', rule_task(t[1]))


def known():
    if not os.path.exists(KNOWN):
        return []
    return [x for x in json.load(open(KNOWN)).get('findings', []) if x.get('status', 'open') == 'open']


def tasks_for(prop, tier):
    ts = []
    for n, l in base.WORDS.items():
        for k, sp in enumerate(l):
            if prop in sp.props:
                for ci in range(len(sp.kw['cases'])) if sp.kw.get('cases') else (None,):
                    ts.append(('spec', (n, k, ci)))
    for asp in aspects.PROPS.get(prop, ()):
        for n, l in base.WORDS.items():
            if any(n.startswith(x) for x in aspects.TABLE[asp].skip):
                continue
            for k, sp in enumerate(l):
                for ci in range(len(sp.kw['cases'])) if sp.kw.get('cases') else (None,):
                    ts.append(('aspect', (asp, n, k, ci)))
    if prop == 'C20':
        import library as ref
        ts += [('lib', (n, k)) for n, l in ref.LIB.items() for k in range(len(l))]
    for i in range(len(RULES.get(prop, ()))):
        ts.append(('rule', (prop, i, tier)))
    return ts


def run_tasks(ctx, ts, jobs=None):
    global CTX
    CTX = ctx
    # long ones first
    def cost(t):
        if t[0] in ('rule', 'lib'):
            return 100
        n, k = t[1][:2] if t[0] == 'spec' else t[1][1:3]
        return base.WORDS[n][k].kw.get('cost', 0)
    ts = sorted(ts, key=lambda t: -cost(t))
    jobs = jobs or min(8, os.cpu_count() or 4)
    if len(ts) <= 2 or os.environ.get('RTF_SERIAL'):
        return [task(t) for t in ts]
    with mp.get_context('fork').Pool(jobs) as pool:
        return pool.map(task, ts, chunksize=1)


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    t0 = time.time()
    load_modules()
    if not tasks_for(prop, tier):
        print('no check for property %s' % prop)
        return 2
    try:
        contexts = [('library (mock_vm::VM)', lambda: Ctx(os.environ.get('DUMP') or extract.extract('lib')))]
        if tier == 'thorough':
            contexts.append(('example multitask (vm::VM)', lambda: Ctx(extract.extract('example:multitask'), 'vm::VM')))
        return decide(prop, tier, t0, contexts)
    except (extract.ExtractError, AnchorError) as e:
        print('ERROR: %s' % e)
        return 2
    finally:
        extract.cleanup()


def decide(prop, tier, t0, contexts):
    viol, und, specs, rules, errs = [], [], [], [], []
    for cname, mk in contexts:
        ctx = mk()
        if ctx.problems:
            errs += ['%s: %s' % (cname, p) for p in ctx.problems]
        ts = tasks_for(prop, tier)
        if cname != contexts[0][0]:
            ts = [t for t in ts if t[0] != 'rule']
        for kind, r in run_tasks(ctx, ts):
            if kind == 'spec':
                if r.get('skip'):
                    continue
                r['program'] = cname
                specs.append(r)
                if r.get('anchor'):
                    errs.append('%s: %s' % (r['name'], r['anchor']))
                for v in r['viol']:
                    v['rule'] = 'reference transfer function of %s' % r['name']
                    v['function'] = r['fn']
                    viol.append(v)
                und += ['%s: %s' % (r['name'], u) for u in r['und']]
            else:
                rules.append(r)
                if r['err']:
                    errs.append('%s: %s' % (r['rule'], r['err']))
                viol += r['viol']
                und += ['%s: %s' % (r['rule'], u) for u in r['und']]
    kn = known()
    fresh, hit = [], []
    for v in viol:
        k = [x for x in kn if x['property'] == prop and x['key'] == v['key'] and x.get('contains', '') in v['what']]
        if k:
            hit.append((k[0], v))
        else:
            fresh.append(v)
    for key in sorted({x['key'] for x, _ in hit}):
        x = [a for a, _ in hit if a['key'] == key][0]
        print('KNOWN-FINDING: property=%s %s' % (prop, x['what']))
    obligations = sum(r['paths'] for r in specs) + sum(r['obl'] for r in rules)
    discharged = sum(r['ok'] for r in specs) + sum(r['dis'] for r in rules)
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
              coverage=dict(
                  explanation='Static analysis of the rustc MIR of the current tree: every path of each listed function is abstractly '
                              'interpreted over the whole VM state and compared with the reference transfer function of the word; '
                              'structural rules inspect the call graph and MIR as named below.',
                  obligations=obligations, discharged=discharged,
                  functions_analysed=len({r['fn'] for r in specs} | {f for r in rules for f in r['fns']}),
                  words=[dict(word=r['name'], function=r['fn'], where=r['where'], paths=r['paths'], agreeing=r['ok'],
                              undecided=len(r['und']), program=r['program']) for r in specs],
                  rules=[dict(rule=r['rule'], obligations=r['obl'], discharged=r['dis'], functions=len(r['fns']),
                              samples=r['samples'], notes=r['notes'][:5]) for r in rules],
                  undecided=(errs + und)[:60],
                  known_findings=[x['what'] for x, _ in hit][:20]),
              assumptions=['operands required by the documented stack effect are present and the stacks do not overflow in the word itself',
                           'data space has free room for what the word appends',
                           'the VM is single-threaded; host file and clock calls follow their Rust documentation'],
              wall_s=round(time.time() - t0, 2), violations=len(fresh))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    path = os.path.join(HERE, 'evidence', prop + '.json')
    rep = os.path.join(HERE, 'evidence', prop + '.violations.json')
    if os.path.exists(rep):
        os.remove(rep)
    if fresh:
        json.dump(fresh, open(rep, 'w'), indent=1, default=str)
    json.dump(ev, open(path + '.tmp', 'w'), indent=1, default=str)
    os.rename(path + '.tmp', path)
    for v in fresh[:10]:
        print('  %s  [%s]\n      %s' % (v['key'], v['where'], str(v['what'])[:600]))
        if v.get('path'):
            print('      path: %s' % ' & '.join(v['path'])[:600])
        if v.get('witness'):
            print('      witness: %s' % str(v['witness'])[:400])
    if fresh:
        print('VIOLATION property=%s replay=%s' % (prop, rep))
        return 1
    if errs:
        print('NOT DECIDED: ' + '; '.join(errs)[:2000])
    if obligations == 0 or discharged * 2 < obligations or len(errs) * 2 > len(specs) + len(rules):
        print('ERROR: only %d of %d obligations decided' % (discharged, obligations))
        return 2
    print('OK property=%s obligations=%d discharged=%d undecided=%d (%.1fs)' % (prop, obligations, discharged, len(und), time.time() - t0))
    return 0
