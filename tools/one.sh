#!/bin/bash
# development aid: one case, verbose: one.sh harness mode case [seed] [flavor]
exe=$(python3 $(dirname $(dirname $(readlink -f $0)))/tools/build.py ${5:-asan} $1) && d=$(mktemp -d /dev/shm/one.XXXX) && (cd $d && LC_ALL=C.UTF-8 ASAN_OPTIONS=detect_leaks=0 $exe --mode $2 --seed ${4:-1} --from $3 --to $(($3+1)) --scratch $d --verbose 1); rm -rf $d
