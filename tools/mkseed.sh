#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "breaks" : takes the uncommitted diff of /tmp/seedwt (a worktree-like copy of /repo) as patch and demo.c from stdin
id=$1; d=/verif/seeded/$id; mkdir -p $d; cat > $d/demo.c
cp /verif/tools/demo/demo.h /verif/tools/demo/demo.sh $d/
git -C /tmp/seedwt diff > $d/patch.diff; git -C /tmp/seedwt checkout -q -- .
python3 - "$@" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2], needs=sys.argv[3], what_it_breaks=sys.argv[4]), open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'), indent=1)
P
[ -s $d/patch.diff ] || echo "EMPTY PATCH $id"
