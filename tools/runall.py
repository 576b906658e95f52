import sys; sys.path.insert(0,'/verif')
from sa.project import load
from sa.engine import *
from sa.norm import *
m=load('lib')
import collections
cl=collections.Counter(f.get('cls') for f in m.fn.values() if f.get('cls'))
und=0; ok=0
import traceback
errs=collections.Counter()
for k,f in sorted(m.fn.items()):
    if f.get('body') is None: continue
    if f['q'].startswith('lambda'): continue
    E=Engine(m)
    try:
        outs=E.run(k); ok+=1
    except Undecided as e:
        print("UND",f['q'],f['line'],e); und+=1
    except Exception as e:
        print("EXC",f['q'],f['line'],type(e),e); errs[str(e)]+=1
        if len(errs)<4: traceback.print_exc()
print(ok,und,len(errs))
