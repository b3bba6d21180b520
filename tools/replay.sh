#!/bin/bash
# replay.sh PROP [SECS] [REPO]: run the concrete search harness of a property directly
V=$(cd "$(dirname "$0")/.." && pwd); . "$V/env.sh"
R=${3:-/repo}; D=$(mktemp -d /tmp/vreplay.XXXXXX)
cp "$R/go.mod" "$R/go.sum" "$D/"
python3 - "$V" "$R" > "$D/ov.json" <<'PY'
import sys,glob,os,json
V,R=sys.argv[1:]
o={}
for f in glob.glob(V+"/replay/*/*_test.go"):
    s=os.path.basename(os.path.dirname(f)); d=R if s=="root" else R+"/"+s
    o[d+"/"+os.path.basename(f)]=f
print(json.dumps({"Replace":o}))
PY
cd "$R" && for p in . ./fees; do GOFLAGS="-mod=mod -modfile=$D/go.mod" VERIF_REPLAY_PROP=$1 VERIF_REPLAY_SECS=${2:-10} VERIF_SEED=${VERIF_SEED:-1} go test -overlay "$D/ov.json" -vet=off -count=1 -v -run '^TestVerifReplay$' $p 2>&1 | grep -v '^=== RUN' | cut -c1-400 | head -${LINES_MAX:-60}; done
rm -rf "$D"
