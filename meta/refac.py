#!/usr/bin/env python3
"""refac.py GROUP [--keep]: apply the behaviour-preserving edits of one group to a scratch copy, test it, run every check's tasks.

Anything reported is a false alarm (or a lost decision) of the machinery."""
import json
import os
import re
import shutil
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, d) for d in ('meta', 'lib', 'engine', 'specs', 'rules')]


def item(text, name):
    stop = text.find('#[cfg(test)]')
    body = text if stop < 0 else text[:stop]
    m = re.search(r'^    (pub )?(unsafe )?fn %s\b' % re.escape(name), body, re.M)
    assert m, name
    a = m.start()
    b = text.index('\n    }\n', a) + 7
    return a, b


def apply(root, edits):
    for _, file, name, new in edits:
        p = os.path.join(root, file)
        s = open(p).read()
        if name is None:
            assert s.count(new[0]) == 1, (file, s.count(new[0]), new[0][:60])
            s = s.replace(*new)
        else:
            a, b = item(s, name)
            s = s[:a] + new + s[b:]
        open(p, 'w').write(s)


def main():
    import refacs
    import refacs2
    import refacs3
    import refacs4
    import refacs5
    import refacs6
    import refacs7
    groups = sys.argv[1]
    only = [a for a in sys.argv[2:] if not a.startswith('-')]
    edits = [r for r in refacs.R if r[0] in groups.split(',') and (not only or r[2] in only)]
    root = '/tmp/refacw'
    shutil.rmtree(root, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', root])
    apply(root, edits)
    if '--notest' not in sys.argv:
        env = dict(os.environ, CARGO_TARGET_DIR='/tmp/tgt')
        r = subprocess.run('cargo +nightly test --offline --lib 2>&1 | grep -E "^error|^  *-->|FAILED|failed|panicked|test result" | head -30', shell=True, cwd=root, env=env,
                           capture_output=True, text=True)
        print(r.stdout)
        if 'error' in r.stdout:
            return 2
    os.environ['RTF_REPO'] = root
    import runner
    runner.load_modules()
    import extract
    dump = extract.extract('lib')
    shutil.copy(dump, '/tmp/dump/refac.%s.json' % groups)
    ctx = runner.Ctx(dump)
    for p in ctx.problems:
        print('PROBLEM', p)
    seen, ts, owner = set(), [], {}
    for i in range(1, 28):
        prop = 'C%02d' % i
        for t in runner.tasks_for(prop, 'quick'):
            owner.setdefault(t, []).append(prop)
            if t not in seen:
                seen.add(t)
                ts.append(t)
    res = runner.run_tasks(ctx, ts)
    ts = None
    nund = 0
    und = []
    for kind, r in res:
        if r.get('skip'):
            continue
        for v in r['viol']:
            print('VIOL', r.get('name') or r.get('rule'), v['key'][:150], '|', v['what'][:260], '|', [str(x)[:80] for x in v.get('path', [])][-3:])
        if r.get('anchor') or r.get('err'):
            print('NOANSWER', r.get('name') or r.get('rule'), r.get('anchor') or r.get('err'), r.get('notes', [''])[-1:][:1])
        for u in r['und']:
            nund += 1
            und.append((r.get('name') or r.get('rule'), u[:200]))
    print('undecided', nund)
    json.dump(und, open('/tmp/refac.und.%s.json' % groups, 'w'), indent=0)
    extract.cleanup()


if __name__ == '__main__':
    sys.exit(main())
