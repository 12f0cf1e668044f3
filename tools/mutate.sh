#!/bin/bash
# mutate.sh PROPERTY SUBSTRING PATCH   : run one contract against a patched copy of the sources (development aid)
D=$(mktemp -d /tmp/mutXXXX); cp -a /repo/src $D/src
(cd $D && git apply --unsafe-paths --directory=. "$3" 2>/dev/null || patch -s -p1 < "$3")
VP_SRC=$D/src python3-vt /verif/engine/prove.py "$1" quick $D/o.json "$2" | grep -E "note|undecided|refuted|discharged /" 
rm -rf "$D"
