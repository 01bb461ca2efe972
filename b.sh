#!/bin/bash
cd /verif/analyzer && cargo +nightly build --release --offline 2>&1 | grep -E -A14 "^error"
cd /verif; D=${D:-1}; F=$1; shift
GIFSA_DEBUG=$D timeout ${T:-120} ./gifsa.sh $F "$@" > /tmp/o 2>/tmp/e; echo "exit $?"; 
python3 - <<'P'
import json
try: o=json.load(open('/tmp/o'))
except Exception as e: print(e); raise SystemExit
for x in o:
    f=x.pop('findings',[]); 
    print({k:(v if not isinstance(v,list) or len(v)<6 else len(v)) for k,v in x.items()})
    for y in f: print('  F',y['prop'],y['kind'],y['msg'],y['func'],y['loc'])
P
tail -${N:-30} /tmp/e | cut -c1-1500
