#!/bin/bash
# bugdump.sh ID...: dumps the type-checked tree of /repo with each planted bug (from scratch copy $S) into /tmp/w/bd/ID
S=${SCRATCH:-/tmp/s/repo}
for id in "$@"; do
  git -C $S checkout -q -- .
  git -C $S apply /verif/seeded/$id/patch.diff || continue
  mkdir -p /tmp/w/bd/$id
  SG_REPO=$S python3 - /tmp/w/bd/$id <<'P'
import sys, json
sys.path.insert(0,'/verif/sg')
import dump
for d in dump.dump(): json.dump(d, open(sys.argv[1]+'/%s.json' % d['crate'] ,'w'))
r=sys.argv[1]+'/release'
import os
os.makedirs(r,exist_ok=True)
for d in dump.dump(release=True): json.dump(d, open(r+'/%s.json' % d['crate'] ,'w'))
P
  git -C $S checkout -q -- .
done
