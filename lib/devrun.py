import sys,time,glob,os
sys.path[:0]=['/verif/engine','/verif/lib','/verif/specs']
from spec import *
from registry import *
import base, importlib
W=World(os.environ.get('DUMP','/tmp/dump/rtforth.lib.json')); W.install_pretty()
ws,by,refs,pr=registry(W)
if pr: print('REG',pr)
mods=['core_data','core_ctl','core_comp','floats','output','files','misc','internal','loader','core_vm','core_text','memory','parser']
for m in mods:
    if os.path.exists('/verif/specs/%s.py'%m): importlib.import_module(m)
only=sys.argv[1:]
tot=time.time()
for n,l in base.WORDS.items():
    if only and n not in only and not any(o.startswith('@') and o[1:] in sp.props for o in only for sp in l): continue
    for sp in l:
        t=time.time()
        try:
            fid,recv=W.resolve(n) if n.split(':')[0] in base.INTERNAL and n!=':' else (by[n].fid,W.vmref)
            R=check_word(W,n,fid,sp.fn,sp.need,sp.opts,ret=sp.kw.get('ret',False),skip=sp.kw.get('skip',()),trap=sp.kw.get('trap',True),cases=sp.kw.get('cases'),unroll=sp.kw.get('unroll',0),recv=recv, opaque=sp.kw.get('opaque', ()))
        except Exception as e:
            import traceback
            print(n,'EXC',repr(e)[:300])
            if only: traceback.print_exc()
            continue
        dt=time.time()-t
        bad=R.violations or R.undecided or R.traps or R.ok!=R.paths or not R.paths
        if bad or only or dt>1:
            print('%-12s paths %d ok %d V%d U%d T%d %.2fs'%(n,R.paths,R.ok,len(R.violations),len(R.undecided),len(R.traps),dt))
            k=8 if only else 1
            for v in R.violations[:k]: print('    V',v['what'],'| GOT',v['got'],'| WANT',v['want'],'| W',v['witness'],'|',v['path'][-4:],v['status'],v['why'])
            for v in R.undecided[:k]: print('    U',v)
            for v in R.traps[:k]: print('    T',v)
miss=[w.name for w in ws if w.name not in base.WORDS]
if not only: print('no spec:',miss)
print('total %.1f'%(time.time()-tot))
