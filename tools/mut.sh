#!/bin/bash
# dev helper: mut.sh PROP FILE SED-EXPR : verify a mutated copy
cd /tmp/mut/repo && git checkout -q -- . && sed -i "$3" $2 && { git diff --quiet && echo "NO CHANGE: $3"; }
GOV_REPO=/tmp/mut/repo /tmp/gov verify -prop $1 2>&1 | grep -v "^psd.*exec" | cut -c1-200| head -${4:-6}; git checkout -q -- .
