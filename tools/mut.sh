#!/bin/bash
# usage: mut.sh PROP FILE 'old' 'new'   (file below src/pycalendar)
P=$1; F=$2
D=/tmp/mutrepo.$$; rm -rf "$D"; cp -a /repo "$D"
python3 - "$D/src/pycalendar/$F" "$3" "$4" <<'P'
import sys
p,o,n=sys.argv[1:4]; s=open(p).read()
o=o.encode().decode('unicode_escape'); n=n.encode().decode('unicode_escape')
assert o in s, "no match"
open(p,'w').write(s.replace(o,n,1))
P
[ $? = 0 ] || { rm -rf "$D"; exit 9; }
find "$D" -name '*$py.class' -path "*$(basename $F .py)*" -delete
cd /verif; VSIM_REPO=$D VERIF_SEED=${SEED:-1} timeout 900 python3 check.py run $P quick > /tmp/mut.$$.log 2>&1
echo "$P $F '$3' -> rc $?: $(grep -m1 VIOLATION /tmp/mut.$$.log; tail -1 /tmp/mut.$$.log | cut -c1-150)"
rm -rf "$D" /tmp/mut.$$.log
