import sys,time,signal
sys.path.insert(0,'/verif/checks')
from lib import *
from rules.tensors import *
class TO(Exception): pass
def h(*a): raise TO()
signal.signal(signal.SIGALRM,h)
F=load(['btensor.cpp'],True)
def run(q,sig=None,deep=()):
    for f in F.q(q):
        if sig and sig not in f.sig(): continue
        print(f, f.sig()[:200])
        I=BT(F,deep)
        signal.alarm(30)
        try: outs=I.analyse(f)
        except TO: print('TIMEOUT'); continue
        finally: signal.alarm(0)
        for s,k,v in outs:
            print('  ',k,fmt(value(I,s,v),9)[:700])
            def pr(l,ind):
              for e in l:
                if e[0]=='loop': print(' '*ind,'loop',e[1]); pr(e[2],ind+3) if isinstance(e[2],(list,tuple)) else 0; continue
                print(' '*ind,e[0],(fmt(e[1],4) if isinstance(e[1],tuple) else str(e[1]))[:100],[fmt(x,6)[:150] if isinstance(x,tuple) and x and isinstance(x[0],str) else str(x)[:150] for x in e[2:]])
            pr(s.log,5)
            print('    facts',[(k[0],fmt(k[1],5)[:100],v) for k,v in s.facts.items()][:6])
if __name__=='__main__':
  for a in sys.argv[1:]:
    a,_,dp=a.partition('@')
    q,_,sg=a.partition('#'); run(q,sg,[BTQ+x for x in dp.split(',')] if dp else ())
