#!/bin/bash
# development tool: trial.sh NAME PATCH|- PROP... : runs the checks against a patched copy of /repo, in /tmp/sv/NAME
N=$1; P=$2; shift 2
D=/tmp/sv/$N; rm -rf "$D"; mkdir -p $D/verif/analyzer/target/release $D/repo
git -C /repo archive HEAD | tar -x -C $D/repo
[ "$P" = - ] || patch -s -p1 -d $D/repo < $P || { echo "$N patch fails"; exit 2; }
cd /verif
cp -a harness witness run.py checks.py known_findings.txt $D/verif/; cp -a analyzer/src $D/verif/analyzer/; cp -a analyzer/target/release/gifsa $D/verif/analyzer/target/release/
rm -rf "$D/verif/harness/target" "$D/verif/witness/target"
sed -i "s#\"/repo\"#\"$D/repo\"#" $D/verif/harness/Cargo.toml $D/verif/witness/Cargo.toml
cp /repo/Cargo.lock $D/repo/ 2>/dev/null
mkdir -p $D/verif/evidence
cd $D/verif
for p in "$@"; do
  GIF_REPO=$D/repo timeout 900 python3 run.py $p --tier quick > $D/$p.out 2>&1; rc=$?
  echo "$N $p rc=$rc $(grep -m2 -hE '^VIOLATION|  - |wall_s' $D/$p.out | tr '\n' ' ' | cut -c1-300)"
done
[ -n "$KEEP" ] || rm -rf "$D/verif" "$D/repo"
