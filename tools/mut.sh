# usage: mut.sh CHECK file 'old' 'new'
rm -rf /tmp/w/r; mkdir -p /tmp/w; cp -a /repo /tmp/w/r
python3 - "$2" "$3" "$4" <<'P'
import sys
p='/tmp/w/r/src/magnopy/'+sys.argv[1]; s=open(p).read()
assert s.count(sys.argv[2])>=1,(p,sys.argv[2]); open(p,'w').write(s.replace(sys.argv[2],sys.argv[3],1))
P
cd /verif; VERIF_REPO=/tmp/w/r timeout 900 python3-vt check.py $1 2>&1 | grep -v ^held | cut -c1-230 | head -${5:-3}
