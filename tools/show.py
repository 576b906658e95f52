import sys; sys.path.insert(0,'/verif')
from sa.project import load
from sa.engine import *
from sa.norm import *
grp,pat=sys.argv[1],sys.argv[2]
m=load(*grp.split(','))
import re
for k,f in sorted(m.fn.items()):
    if not re.search(pat,(f.get('cls') or '')+'@'+f['q']): continue
    E=Engine(m,access='-a' in sys.argv)
    print("###",f.get('cls'),f['q'],[(p['n'],p['t'],p['ref']) for p in f['params']],f['line'])
    try:
        for o in E.run(k):
            print("  ",o.kind,o.line or '',"val=",show(o.val) if o.val is not None else None,"loc=",o.loc)
            print("      facts",[(show(a),v) for a,v in o.facts.d.items()])
            for r,d in o.st.store.items():
                if r[0] in 'og': print("      ",r[0],show(r[1]) if isinstance(r[1],T) else r[1],{'.'.join(map(str,p)):show(v) for p,v in d.items()})
            if o.trace: print("      trace",o.trace)
    except Undecided as e: print("  UND",e)
