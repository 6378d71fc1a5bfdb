import sys
sys.path.insert(0,'/verif/checks')
import importlib
from check import Ctx
from collections import Counter
m,f=sys.argv[1].split('.')
M=importlib.import_module('rules.'+m)
sys.setrecursionlimit(20000)
c=Ctx('X'); c.tier='quick'
getattr(M,f)(c)
for k,v in Counter((o['obligation'] if isinstance(o,dict) else o[0]) for o in c.obligations).items(): print(v,k)
