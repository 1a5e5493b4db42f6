#!/bin/bash
# usage: tools/sweep.sh FIRST LAST [ID...]   runs checks with other seeds; prints only the loud ones
cd "$(dirname "$(readlink -f "$0")")/.." || exit 2
a=$1; b=$2; shift 2
ids=${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22}
ev=$(mktemp -d /tmp/kvsweep.XXXXXX); trap 'rm -rf "$ev"' EXIT
for s in $(seq "$a" "$b"); do for i in $ids; do
  VERIF_SEED=$s KV_EVIDENCE=$ev bash check.sh "$i" > "$ev/out" 2>&1 || { echo "== seed $s $i"; tail -6 "$ev/out" | cut -c1-400; }
done; done
echo "sweep $a..$b done"
