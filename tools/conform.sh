#!/bin/bash
# tools/conform.sh [cases] [seed]: compares the models of the simulator with the system they stand for
cd "$(dirname "$0")/.." || exit 2
D=$(mktemp -d) || exit 2
trap 'rm -r -- "$D"' EXIT
W=$(python3 -c 'from checks import WRAPS; print(" ".join("-Wl,--wrap=" + w for w in WRAPS))'); L=$(python3 -c 'from checks import LIBS; print(" ".join(LIBS))')
g++ -std=gnu++17 -O1 -g -Isim/shim -I"${VERIF_REPO:-/repo}/include" -c tools/conform.cpp -o "$D/c.o" && g++ -std=gnu++17 -O2 -c sim/engine.cpp -o "$D/e.o" && g++ "$D/c.o" "$D/e.o" $W $L -o "$D/conform" || exit 2
"$D/conform" --prop conform --seed "${2:-1}" --to "${1:-3000}" --replay-out "$D/r.json" --no-shrink; rc=$?
[ $rc = 0 ] || cat "$D/r.json" 2>/dev/null
exit $rc
