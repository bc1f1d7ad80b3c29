#!/bin/bash
# mut.sh file sed-expression property sources [entries]: the verifier on a scratch copy of /repo with one line changed
M=/tmp/m1/repo; mkdir -p /tmp/m1; rsync -a --delete --exclude .git /repo/ $M/ 2>/dev/null || { rm -rf /tmp/m1/repo; cp -a /repo /tmp/m1/repo; }
sed -i "$2" $M/$1; diff /repo/$1 $M/$1 | grep '^[<>]' | head -6
VERIF_REPO=$M VERIF_BUILD=/tmp/m1/build N=${N:-20} /verif/tools/d.sh $3 $4 $5
