#!/bin/bash
# profile one entry per value of a parameter: prof.sh PROP ENTRY PARAM "VALUES" [extra sx args]; needs SX_REPO or /repo
P=$1; E=$2; K=$3; V=$4; shift 4
cd $(dirname $0)/..; rm -rf /tmp/prof; H=$(python3 -c "
import sys; sys.path.insert(0,'tools')
from jobs import JOBS
print([j['harness'] for j in JOBS['$P'] if j['entry']=='$E'][0])")
python3 - <<EOF
import sys; sys.argv=['x']; sys.path.insert(0,'.')
import importlib.util,os
s=importlib.util.spec_from_file_location('chk','check.py'); m=importlib.util.module_from_spec(s); s.loader.exec_module(m)
os.makedirs('/tmp/prof'); b=m.Build('/tmp/prof',['$H'])
import time
EOF
for k in $V; do engine/sx /tmp/prof/all_$H.bc --entry $E --out /tmp/prof/x.jsonl --procs 7 --time ${T:-30} --repo ${SX_REPO:-/repo}/ -p $K=$k "$@" 2>/tmp/prof.err; python3 - "$K=$k" <<'EOF'
import json,sys
d=[json.loads(l) for l in open('/tmp/prof/x.jsonl')]
s=[x for x in d if x['t']=='summary'][-1]
print(sys.argv[1],{k:s[k] for k in ('wall','paths','timeouts','queries','z3','z3_s','truncated','violations')}, set(x['label'] for x in d if x['t']=='violation'))
EOF
rm -f /tmp/prof/x.jsonl; done; rm -rf /tmp/prof
