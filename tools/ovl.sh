#!/bin/bash
# dev helper: run an oracle: tools/ovl.sh C05 SECONDS SEED
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
R=${GOV_REPO:-/repo}
n=$((10#${1#C}))
if [ $n -le 14 ]; then D=psd; P=; elif [ $n -le 16 ]; then D=color; P=color; elif [ $n -le 22 ]; then D=blend; P=blend; elif [ $n -le 25 ]; then D=composite; P=composite; else D=js; P=; fi
O=$(mktemp /tmp/ovlXXXX.json)
python3 - "$R" $D "$P" $O <<'P'
import json,sys,os,glob
R,D,P,O=sys.argv[1:5]
mod="/verif/gomod/go.mod"
if P=="composite":
    s=open("/verif/gomod/composite.mod").read().replace("VERIF","/verif"); mod=O+".mod"; open(mod,"w").write(s)
rep={R+"/go.mod":mod,R+"/go.sum":"/verif/gomod/go.sum"}
d=os.path.join(R,P)
for f in glob.glob(d+"/*_test.go"): rep[f]=""
for f in glob.glob("/verif/oracles/%s/*_test.go"%D): rep[os.path.join(d,os.path.basename(f))]=f
json.dump({"Replace":rep},open(O,"w"))
P
cd $R
VF_PROP=$1 VF_BUDGET=${2:-5} VERIF_SEED=${3:-1} go test -count=1 -vet=off -overlay $O -run "TestVF_$1\$" ./$P 2>&1 | cut -c1-3000
rm -f $O $O.mod
