#!/bin/bash
# kf.sh PROP COMMIT TEXT: record a repaired defect
cd /verif; python3 - "$@" <<'P'
import sys,json
p,c,t=sys.argv[1:4]
open('known_findings.jsonl','a').write(json.dumps({"property":p,"status":"fixed","commit":c,"what":"fixed: property=%s %s %s"%(p,c,t)})+'\n')
P
