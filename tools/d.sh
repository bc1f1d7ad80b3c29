#!/bin/bash
# d.sh Cxx sources [entries]: run the verifier on one contract file with compact output
cd /verif/engine; timeout ${T:-300} python3-vt drv.py ../specs/$1.cc "$2" $3 2>&1 | cut -c1-${W:-260} | grep -v '^  File\|^    ^\|\^\^\^\|^    .* = \|^    return \|^    yield ' | tail -${N:-40}
