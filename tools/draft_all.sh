#!/bin/bash
# draft_all.sh NAME...: (re)draft spec files from tools/specs.json
cd /verif
for n in "$@"; do python3 - "$n" <<'P'
import json,sys
c=json.load(open('/verif/tools/specs.json'))[sys.argv[1]]
json.dump(c,open('/tmp/_cfg.json','w'))
P
python3 tools/gen_spec.py spec/$n.py /tmp/_cfg.json; done
