# withmut.sh CASES NAME CMD... : run CMD with QTT_REPO pointing at a mutated copy
cases=$1; name=$2; shift 2
w=/tmp/wm.$$; mkdir -p $w/.cache
cp -r /repo/include /repo/sources $w/; ln -s /repo/extern $w/extern
for e in /verif/.cache/extract-*; do ln -s $e $w/.cache/; done
python3 - "$cases" "$name" $w <<'P'
import sys
cs={}
R=M=lambda n,c,f,*on: cs.__setitem__(n,(f,on))
exec(open(sys.argv[1]).read())
f,on=cs[sys.argv[2]]
p=sys.argv[3]+'/'+f
s=open(p).read()
for o,n in zip(on[::2],on[1::2]):
    assert o in s, o
    s=s.replace(o,n,1)
open(p,'w').write(s)
P
QTT_REPO=$w QTT_CACHE=$w/.cache QTT_EVID=$w "$@"
rm -rf $w
