#!/bin/bash
# dev helper: q.sh N PROP...
cd /verif; N=$1; shift
for p in $@; do timeout 300 build/target/release/harness run $p ${SEED:-1} 0 $N 8 0 100 100000 /tmp/o.$p; done
