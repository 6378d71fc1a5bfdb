"""like t4 but with N (deep closing) normal form"""
import sys
sys.path.insert(0,'/verif/checks')
from rules.tensors import *
import os,re
U=os.environ.get('UNITS','btensor.cpp').split(',')
F=load(U,True)
dp=[x if '::' in x else BTQ+x for x in sys.argv[2].split(',')] if len(sys.argv)>2 and sys.argv[2] else []
D=int(os.environ.get('D','6'))
def short(x):
  x=re.sub(r"<iter <L (\d+) [\w:]+>>",r"I\1",x); x=re.sub(r"phi\('L', (\d+), '[^']*'\)",r"PHI\1",x); x=re.sub(r"\(\('v', \d, (\d+)\),\)",r"v\1",x)
  return x
for f in F.q(sys.argv[1]):
  if len(sys.argv)>3 and sys.argv[3] not in f.sig(): continue
  print('##',f.sig()[:160])
  I=BT(F,dp); I.split_minmax=bool(os.environ.get("MM")); outs=I.analyse(f); C=Canon(I)
  N=Norm(I,C)
  def F_(facts): return '\n           '.join(short('%s %s %s'%(k[0],fmt(N(k[1]),D)[:200],v)) for k,v in facts.items())
  for r in I.loops:
    print('LOOP',r['kind'],r['line'],'depth',r['depth'],'rng',r['rng'])
    for k,v in r['init'].items():
        print('   var',short(str(k[2])),'init',short(fmt(N(v),D))[:300])
    for e in r['ends']:
        print('   end',F_(e[1]))
        for k,v in e[2].items():
            if v!=k: print('        ',short(str(k[2])),':=',short(fmt(N(v),D+2))[:500])
    for e in r['exits']: print('   exit',F_(e[1]))
  for s,k,v in outs:
    val=value(I,s,v)
    print('OUT',k,short(fmt(N(val),D+2))[:900]); print('   facts',F_(s.facts))
    for i,p in enumerate(f.params):
        pv=param_val(s,f,i)
        if pv is not None and pv!=('sym',p['n']): print('   param',p['n'],short(fmt(N(pv),D))[:300])
    if 'this' in str(s.env.get(('o','this'),'')): print('   this',short(fmt(N(s.env[('o','this')]),D))[:400])
