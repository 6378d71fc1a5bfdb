"""normal form via sections.Run: t6.py QNAME [deep] [sigsub]"""
import sys,os,re
sys.path.insert(0,'/verif/checks')
from rules.sections import *
U=os.environ.get('UNITS','btensor.cpp').split(',')
F=load(U,True)
dp=[x if '::' in x else BTQ+x for x in sys.argv[2].split(',')] if len(sys.argv)>2 and sys.argv[2] else []
D=int(os.environ.get('D','6'))
def short(x):
  x=re.sub(r"<iter <L (\d+) [\w:]+>>",r"I\1",x); x=re.sub(r"phi\('L', (\d+), '[^']*'\)",r"PHI\1",x); x=re.sub(r"\(\('v', \d, (\d+)\),\)",r"v\1",x)
  x=re.sub(r"<iter <L (\d+) [\w:]+ (\d+)>>",r"I\1_\2",x); x=re.sub(r"phi\('L', (\d+), '[^']*', (\d+)\)",r"PHI\1_\2",x)
  return x
W_=int(os.environ.get('W','300'))
for f in F.q(sys.argv[1]):
  if len(sys.argv)>3 and sys.argv[3] not in f.sig(): continue
  print('##',f.sig()[:160])
  R=Run(F,f,dp,cls=BC if os.environ.get('BC') else BT)
  I,N=R.I,R.N
  def F_(facts): return '\n           '.join(short('%s %s %s'%(k[0],fmt(N(k[1]),D)[:W_],v)) for k,v in facts.items())
  for r in I.loops:
    print('LOOP',r['kind'],r['site'][1:],'depth',r['depth'],'rng',r['rng'],'trip',[short(fmt(x,4)) for x in R.trips.get(('iter',r['site']),())])
    for k,v in r['init'].items():
        print('   var',short(str(k[2])),'init',short(fmt(N(v),D))[:W_])
    for e in r['ends']:
        print('   end',F_(e[1]))
        for k,v in e[2].items():
            if v!=k: print('        ',short(str(k[2])),':=',short(fmt(N(v),D+2))[:W_+200])
    for e in r['exits']: print('   exit',F_(e[1]))
  for s,k,v in R.outs:
    print('OUT',k,short(fmt(R.val(s,v),D+2))[:W_*3] if k=='return' else v); print('   facts',F_(s.facts))
    for root,t in s.env.items():
        if root[0]=='o' and t!=('sym',root[1]): print('   obj',root[1],short(fmt(N(t),D+2))[:W_*3])
