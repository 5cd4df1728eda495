#!/bin/bash
# applyfix.sh HASH PROP MESSAGE : take one commit of the scratch copy over to /repo as a fix commit and record it
set -e
git -C /tmp/fixrepo diff $1~1 $1 | git -C /repo apply
git -C /repo commit -qam "fix: $3"
H=$(git -C /repo rev-parse --short HEAD)
python3 - "$2" "$H" "$3" <<'P'
import sys,json
p,h,m=sys.argv[1:]
open("/verif/known_findings.jsonl","a").write(json.dumps(dict(property=p,status="fixed",text="fixed: property=%s %s %s"%(p,h,m)))+"\n")
P
