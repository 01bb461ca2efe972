#!/bin/bash
# development helper: par.sh FEATURE ENTRY... : run entries in parallel, outputs in /tmp/p_ENTRY.{o,e}
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
F=$1; shift
for e in "$@"; do (GIFSA_DIR=/verif/.work/dev-$F GIFSA_DEBUG=${D:-1} timeout ${T:-800} /verif/analyzer/target/release/gifsa --run /verif/.work/dev-$F/harness.args - $e > /tmp/p_$e.o 2>/tmp/p_$e.e; echo $? > /tmp/p_$e.rc) & done; wait
python3 - "$@" <<'P'
import json,sys
for e in sys.argv[1:]:
    try: o=json.load(open(f'/tmp/p_{e}.o'))
    except Exception as x: print(e,x); continue
    for x in o:
        print(e,'INCOMPLETE '+x['incomplete'] if x['incomplete'] else 'complete',x['ms'],'ms',x.get('summaries'),x.get('reached'),x.get('proved'))
        for y in x.get('findings',[]): print('  F',y['prop'],y['kind'],y['msg'],y['func'],y['loc'])
P
