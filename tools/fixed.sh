#!/bin/bash
# tools/fixed.sh <property> <commit> : record a /repo fix commit in known_findings.jsonl
cd "$(dirname "$0")/.."; python3 - "$1" "$2" <<'P'
import sys,json,subprocess
p,h=sys.argv[1:3]
s=subprocess.check_output(['git','-C','/repo','log','-1','--format=%h %s',h]).decode().strip()
h,s=s.split(' ',1); s=s.removeprefix('fix: ')
open('known_findings.jsonl','a').write(json.dumps({"status":"fixed","property":p,"commit":h,"what":f"fixed: property={p} {h} {s}"})+"\n")
P
