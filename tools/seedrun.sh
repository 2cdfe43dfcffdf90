#!/bin/bash
# dev helper: seedrun.sh [-p PROP] ID... : apply each planted bug to a clone and run the property's check against it
P=; [ "$1" = -p ] && { P=$2; shift 2; }
for i in "$@"; do
 d=/tmp/seedrun/$i; rm -rf /tmp/seedrun/$i; mkdir -p /tmp/seedrun; git clone -q /repo $d; git -C $d apply /verif/seeded/$i/patch.diff || continue
 p=${P:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")}
 s=$(date +%s)
 mkdir -p /tmp/seedrun/ev
 GOV_REPO=$d GOV_VERIF=/verif GOV_EVID=/tmp/seedrun/ev timeout 900 /tmp/gov check -prop $p -tier quick > /tmp/seedrun/$i.log 2>&1; r=$?
 echo "$i $p rc=$r $(( $(date +%s)-s ))s $(grep -h VIOLATION /tmp/seedrun/$i.log | head -3 | cut -c1-160| tr '\n' ' ')"
 [ -z "$P" ] && python3 - $i $r <<'P'
import json,sys
f='/verif/tools/seed_results.json'
try: d=json.load(open(f))
except FileNotFoundError: d={}
t=open('/tmp/seedrun/%s.log'%sys.argv[1]).read()
rc=sys.argv[2]
d[sys.argv[1]]='missed' if rc=='0' else 'error' if rc!='1' else ('caught: obligation fails' if 'failed obligation' in t else 'caught by the bounded oracle only') + (', no failing input' if 'no-failing-input-found' in t else ', failing input found' if 'failed obligation' in t else '')
json.dump(d,open(f,'w'),indent=0,sort_keys=True)
P
 rm -rf /tmp/seedrun/$i
done
