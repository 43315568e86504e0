#!/bin/bash
# mkbug.sh ID PROP PKG "needs" "breaks" : takes the diff of /tmp/w/repo (edited scratch copy) and demo from /tmp/w/demo_test.go
D=/verif/seeded/$1; mkdir -p $D
git -C /tmp/w/repo diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "empty patch"; exit 1; }
cp /tmp/w/demo_test.go $D/demo_test.go
F='GOFLAGS=-mod=readonly'
case $3 in extension/micro*|extension/middleware*|extension/protocol*) F='GOFLAGS="-mod=readonly -modfile=/opt/vp/arpc.mod"';; esac
sed "s#/PKG/zz#/$3/zz#; s#\./PKG#./$3#; s#PKG#$3#; s#MODFLAG#$F#" /verif/tools/demo.tmpl | sed 's#/\./zz#/zz#' > $D/demo.sh
python3 - "$2" "$4" "$5" > $D/meta.json <<'P'
import json,sys; print(json.dumps(dict(property=sys.argv[1],needs=sys.argv[2],what_it_breaks=sys.argv[3]),indent=1))
P
git -C /tmp/w/repo checkout -q -- .
cd /repo && NOTEST=$NOTEST bash /verif/tools/plant.sh $1 $2
