#!/bin/bash
# tools/newseed.sh ID PROPERTY "needs" "what it breaks": takes the uncommitted change of /repo as the patch, then reverts it
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff; git -C /repo checkout -q -- .
python3 - "$@" <<'P'
import json,sys
i,p,n,w=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open("/verif/seeded/%s/meta.json"%i,"w"),indent=1)
P
