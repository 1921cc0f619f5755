#!/bin/bash
# benign1.sh <edit> <check>: applies a behaviour-preserving edit in a copy and runs one check, showing everything
D=$(mktemp -d /tmp/benign-XXXX); cp -a /repo $D/r
python3 - "$1" $D/r <<'P'
import sys; sys.path.insert(0,'/verif/tools')
from benign_edits import EDITS
for f,o,n in EDITS[sys.argv[1]][1]:
    p=sys.argv[2]+"/"+f; s=open(p).read(); assert s.count(o)==1,(f,o); open(p,"w").write(s.replace(o,n))
P
SMDIFF_REPO=$D/r python3 /verif/check.py $2
rm -rf "$D"
