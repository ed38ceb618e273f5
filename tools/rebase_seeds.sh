#!/bin/bash
# Re-make the patches which no longer apply to /repo's HEAD (three-way, in a scratch clone)
for d in /verif/seeded/*/; do
  id=$(basename $d); git -C /repo apply --check $d/patch.diff 2>/dev/null && continue
  w=$(mktemp -d /tmp/rebase.XXXX); git clone -q /repo $w/r
  if git -C $w/r apply -3 $d/patch.diff 2>/dev/null; then git -C $w/r diff HEAD > $d/patch.diff; echo "$id rebased"; else echo "$id CONFLICT"; fi
  rm -rf "$w"
done
