#!/bin/bash
# mut.sh PROP FILE(relative to /repo) 'python expr on s' [check args] -> run the check against a mutated copy
B=${SYMX_BASE:-/repo}
d=/tmp/mut_$$; mkdir -p $d; cp -a $B/shepherd_core $B/shepherd_data $d/
python3 - "$d/$2" "$3" <<'P'
import sys
p=sys.argv[1]; s=open(p).read(); t=eval(sys.argv[2],{"s":s}); assert t!=s,"mutation changed nothing"; open(p,"w").write(t)
P
[ $? = 0 ] && SYMX_NOEV=1 SYMX_REPO=$d /verif/check.py $1 ${@:4} > /tmp/mut_$$.log 2>&1
echo "exit $?"; grep -o "violated: .*\|INCON.*" /tmp/mut_$$.log | cut -c1-160 | sort -u | head -${MUTN:-3}
rm -rf /tmp/mut_$$ /tmp/mut_$$.log
