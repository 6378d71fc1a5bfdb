import sys
sys.path.insert(0,'/verif/checks')
import importlib
from check import Ctx
m,f=sys.argv[1].split('.')
M=importlib.import_module('rules.'+m)
sys.setrecursionlimit(20000)
c=Ctx('X'); c.tier='quick'
import time; t=time.time()
getattr(M,f)(c)
print(len(c.obligations),'obl',len(c.viol),'viol',round(time.time()-t,1))
seen=set()
for v in c.viol:
    k=(v['obligation'],v['why'])
    if k in seen: continue
    seen.add(k)
    print(v['where'],'|',v['obligation'],'|',v['why'])
print(c.meta)
