import sys
sys.path.insert(0,'/verif/checks')
from rules.tensors import *
F=load(['btensor.cpp'],True)
deep=['quantit::sparse_zeros_like']+[BTQ+x for x in ('btensor','to','..','sparse_zeros_like','new_block_list_apply_to_all_blocks','new_block_list_apply_to_all_blocks_mod_index','apply_to_all_blocks','apply_to_all_blocks_mod_index')]
for q in sys.argv[1:]:
  for f in F.q(q if '::' in q else BTQ+q):
    I=BT(F,deep); C=Canon(I)
    for s,k,v in I.analyse(f):
        val=value(I,s,v)
        print(f.sig()[:100],k,fmt(val,2)[:100])
        for n in fields(F,'quantit::btensor'):
            print('     ',n,fmt(C(proj(val,('f',n))),5)[:200])
        print('     facts',[(k[0],fmt(k[1],5)[:100],v) for k,v in s.facts.items()][:6])
