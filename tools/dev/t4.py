import sys
sys.path.insert(0,'/verif/checks')
from rules.tensors import *
import os
U=os.environ.get('UNITS','btensor.cpp').split(',')
F=load(U,True)
dp=[x if '::' in x else BTQ+x for x in sys.argv[2].split(',')] if len(sys.argv)>2 and sys.argv[2] else []
D=int(os.environ.get('D','6'))
for f in F.q(sys.argv[1]):
  if len(sys.argv)>3 and sys.argv[3] not in f.sig(): continue
  print('##',f.sig()[:160])
  I=BT(F,dp); I.split_minmax=bool(os.environ.get("MM")); outs=I.analyse(f); C=Canon(I)
  def F_(facts): return [(k[0],fmt(C(C.closed(k[1])),D)[:140],v) for k,v in facts.items()]
  for r in I.loops:
    print('LOOP',r['kind'],r['line'],'depth',r['depth'],'rng',r['rng'])
    for k,v in r['init'].items():
        print('   var',k[2],'init',fmt(C(v),D)[:200])
    for e in r['ends']:
        print('   end',F_(e[1]))
        for k,v in e[2].items():
            if v!=k: print('        ',k[2],':=',fmt(C(C.closed(v)),D+2)[:300])
        for ev in e[0]: print('         ev',ev[0],fmt(ev[1],3) if isinstance(ev[1],tuple) else ev[1],[fmt(C(x),D)[:100] for x in (ev[3] if ev[0]=='call' else ()) ] )
    for e in r['exits']: print('   exit',F_(e[1]))
  for s,k,v in outs:
    val=value(I,s,v)
    print('OUT',k,fmt(C(val),D+2)[:900]); print('   facts',F_(s.facts)[:12])
    for i,p in enumerate(f.params):
        pv=param_val(s,f,i)
        if pv is not None and pv!=('sym',p['n']): print('   param',p['n'],fmt(C(pv),D)[:300])
    if 'this' in str(s.env.get(('o','this'),'')): print('   this',fmt(C(s.env[('o','this')]),D)[:400])
