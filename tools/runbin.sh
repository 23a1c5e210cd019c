#!/bin/bash
# runbin.sh BIN [profile] [args]: build and run one checker by hand, print its summary
b=$1; p=${2:-checked}; shift; shift
cd ${MCDIR:-/verif/mc} && cargo build --offline --profile $p --bin $b 2>&1 | grep -E "^(warn|err)|-->|^ *\||Finish" ; d=$p; [ $p = dev ] && d=debug
./target/$d/$b --out /tmp/$b.json "$@"; echo "rc $?"
python3 - /tmp/$b.json <<'P'
import json,sys
d=json.load(open(sys.argv[1]))
for f in d.get('families',[]): print(f)
print({k:v for k,v in d.items() if k not in('families','samples')})
P
