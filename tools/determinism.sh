#!/bin/bash
# every property: the same seeds give the same event histories in different processes, environments and loads
HERE=$(cd "$(dirname "$0")/.." && pwd); N=${1:-200}
mkdir -p "$HERE/build"; EXE=$("$HERE/sim/build.sh" "$HERE/build") || exit 3
T=$(mktemp -d); rc=0
one() { "$EXE" hashes $1 ${SEED:-7} 0 $N > $T/$1.a & (cd /; FOO=$(head -c 3000 /dev/zero | tr '\0' x) "$EXE" hashes $1 ${SEED:-7} 0 $N > $T/$1.b) & wait; cmp -s $T/$1.a $T/$1.b || { echo "NONDETERMINISTIC $1"; diff $T/$1.a $T/$1.b | head -4; return 1; }; }
export -f one; export EXE N T SEED
"$EXE" list | sort | xargs -P 6 -I{} bash -c 'one {}' || rc=1
[ $rc = 0 ] && echo "deterministic: $(cat $T/*.a | wc -l) runs"
rm -r -f "$T"; exit $rc
