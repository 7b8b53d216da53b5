#!/bin/bash
# confirm.sh ID...: checks planted bugs in a scratch copy $S of /repo (build, stable tests, demonstration).
S=${SCRATCH:-/tmp/s/repo}
for id in "$@"; do
  d=/verif/seeded/$id
  git -C $S checkout -q -- . ; git -C $S pull -q /repo main 2>/dev/null
  (cd $S && bash $d/demo.sh > /tmp/s/demo0.log 2>&1); a=$?
  git -C $S apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  sed "s#/repo#$S#g" /opt/vp/env.sh > /tmp/s/env.sh
  (. /tmp/s/env.sh; cargo nextest run --workspace --locked --offline --no-fail-fast --test-threads 8 --profile vp --tool-config-file vp:/opt/vp/nextest.toml > /tmp/s/test.log 2>&1); t=$?
  (cd $S && bash $d/demo.sh > /tmp/s/demo1.log 2>&1); b=$?
  git -C $S checkout -q -- .
  echo "$id: tests=$t demo unchanged=$a patched=$b ($(grep -h 'Summary' /tmp/s/test.log | tail -1)) $(tail -1 /tmp/s/demo1.log | cut -c1-150)"
done
