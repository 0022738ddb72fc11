#!/bin/bash
# usage: run.sh PROPERTY [quick|thorough] [more harness flags]
# Builds the harness with the library from /repo's working tree and runs one check.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
. harness/env.sh
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
RACE=" C13 C16 C20 C21 C24 C25 C26 C27 "
mkdir -p .build evidence
case "$RACE" in
*" $prop "*) bin=.build/hrace; flags=-race ;;
*) bin=.build/h; flags= ;;
esac
out=$(cd harness && flock ../.build/lock go build $flags -tags verif -o ../$bin . 2>&1) || { echo "CHECK ERROR: build failed"; echo "$out" | head -40; exit 2; }
case " C15 C24 " in
*" $prop "*)
  export BOND_CLI=$PWD/.build/bond-cli
  out=$(cd harness && flock ../.build/lock go build -o "$BOND_CLI" github.com/go-bond/bond/cmd/bond-cli 2>&1) || { echo "CHECK ERROR: build failed"; echo "$out" | head -40; exit 2; } ;;
esac
lim=850; [ "$tier" = thorough ] && lim=14000
exec timeout -k 5 $lim $bin -prop "$prop" -tier "$tier" "$@"
