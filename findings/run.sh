#!/bin/bash
# run.sh NAME...: runs demonstrations of findings against the crate in the current directory
here=$(cd "$(dirname "$0")" && pwd)
for x in "$@"; do
  d=$(mktemp -d /tmp/find.XXXXXX)
  cp "$here/$x.rs" "$d/demo.rs"; cp "$here/../tools/demo.sh" "$d/demo.sh"
  bash "$d/demo.sh" > "$d/log" 2>&1; echo "$x: exit $? $(grep -m1 -A1 panicked "$d/log" | tail -1)$(grep -m1 '^error' "$d/log")"
  rm -rf "$d"
done
