#!/bin/bash
# usage: vf.sh Cxx : run check, summarise failures compactly
cd /verif; . env.sh
VERIF_TIER=${2:-quick} timeout 880 bash run.sh $1 > /tmp/vf.out 2>&1
grep -v '^VIOLATION' /tmp/vf.out | sed -E 's/with .*: (got|exec)/… \1/' | cut -c1-300 | head -${3:-32}
