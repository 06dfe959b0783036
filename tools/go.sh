#!/bin/bash
# go.sh UNIT [verus options]: extract one proof unit from /repo and verify it (development aid).
mkdir -p /tmp/v
VZ_EXPAND_DIR=${VZ_EXPAND_DIR:-/tmp/v/exp} python3 - "$1" <<'P' && verus --triggers-mode silent /tmp/v/out.rs "${@:2}" 2>&1 | head -${L:-60}
import sys; sys.path.insert(0,'/verif/tools')
import extract
u=extract.Unit('/verif/proofs/'+sys.argv[1]+'.rs'); open('/tmp/v/out.rs','w').write(u.text)
if u.lost or u.unapplied: print('LOST',u.lost,'UNAPPLIED',u.unapplied)
P
