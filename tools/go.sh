#!/bin/bash
# tools/go.sh N profile... : build and run quickly
cd /verif; n=$1; shift
make -j8 2>&1 | grep -E "error" && exit 1
for p in "$@"; do echo "== $p"; ./build/asan/sim --profile $p --seed 1 --n $n --jobs 8 > /tmp/o.$p; python3 tools/summ.py < /tmp/o.$p; done
