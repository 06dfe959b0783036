#!/bin/bash
# mut.sh UNIT FILE OLD NEW: does the unit reject this textual change? (development aid; works on a copy in /tmp/v/repo)
rm -rf /tmp/v/repo; mkdir -p /tmp/v/repo; (cd /repo && tar cf - --exclude=./target --exclude=./.git .) | tar xf - -C /tmp/v/repo
python3 - "$2" "$3" "$4" <<'P' || exit 1
import sys
f,o,n=sys.argv[1:]; p='/tmp/v/repo/'+f; s=open(p).read()
assert o in s,"not found: "+o
open(p,'w').write(s.replace(o,n,1))
P
VZ_REPO=/tmp/v/repo VZ_EXPAND_DIR=/tmp/v/expm L=400 bash /verif/tools/go.sh $1 | grep -E "^(LOST|error|verification)|^ *[0-9]* \|.*(fn|ensures)" | head -${L:-6}
