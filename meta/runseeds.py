"""Development tool: run each planted bug's check on a scratch copy.  usage: runseeds.py [id ...] [--all-checks]"""
import json, os, shutil, subprocess, sys
V = '/verif'
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(V + '/seeded'))
man = json.load(open(V + '/MANIFEST.json'))
allp = [c['property'] for c in man['checks']]
for i in ids:
    d = os.path.join(V, 'seeded', i)
    p = json.load(open(d + '/meta.json'))['property']
    w = '/tmp/seedr/' + i
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['mkdir', '-p', '/tmp/seedr'])
    subprocess.check_call(['git', 'clone', '-q', '/repo', w])
    subprocess.check_call(['git', 'apply', d + '/patch.diff'], cwd=w)
    e = dict(os.environ, RTF_REPO=w)
    res = []
    for q in (allp if '--all-checks' in sys.argv else [p]):
        if q not in allp:
            res.append('%s:unclaimed' % q)
            continue
        r = subprocess.run(['python3', 'check.py', q], cwd=V, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode or q == p:
            l = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
            res.append('%s:%s' % (q, 'CAUGHT' if l and r.returncode == 1 else 'rc%d' % r.returncode))
            if '-v' in sys.argv:
                print(r.stdout[-1500:])
    print(i, p, ' '.join(res), flush=True)
    shutil.rmtree(w, ignore_errors=True)
