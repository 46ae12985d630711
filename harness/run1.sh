#!/bin/bash
# dev helper: build and run one check binary quickly
. /verif/harness/env.sh; cd /verif/harness
b=$1; shift
cargo build --release --bin $b $([ $b = c17 -o $b = c21 -o $b = c28 ] && echo --features store; [ $b = c22 ] && echo --no-default-features) 2>&1 | grep -E "^(error|warning: unused)|-->|^  *\|" | head -40
time ./target/release/$b run --tier quick --seed ${SEED:-1} --profile release --part /tmp/p-$b.json --replays /tmp/rp "$@"
python3 - /tmp/p-$b.json <<'P'
import json,sys
d=json.load(open(sys.argv[1]));print({k:d[k] for k in d if k not in('samples','rule')})
P
