#!/bin/bash
# run.sh PROPERTY TIER [harness flags...]: build goledger and the harness from /repo's working tree, run one check.
set -u
ID=$1; TIER=$2; shift 2
VERIF=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
unset LANG LC_ALL GOLEDGER_CONF XDG_CONFIG_HOME
SEED=${VERIF_SEED:-1}
T=$(mktemp -d /tmp/verif-$ID-XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/scratch"

build() {
  # goledger itself
  (cd "$REPO" && go build -o "$T/goledger" .) || return 1
  # module file of the harness: goledger's requirements, plus goledger itself
  { echo "module verif/harness"; echo; echo "go 1.21"; echo
    echo "require github.com/mescanne/goledger v0.0.0"
    echo "replace github.com/mescanne/goledger => $REPO"
    sed -n '/^require/,$p' "$REPO/go.mod"; } > "$T/go.mod"
  cp "$REPO/go.sum" "$T/go.sum"
  # files cmd/web embeds that are not in the repository
  OV="{\"Replace\":{"; SEP=""
  for f in static/verif.js static/verif.css; do
    OV="$OV$SEP\"$REPO/cmd/web/$f\":\"$VERIF/harness/web/$(basename $f)\""; SEP=","
  done
  echo "$OV}}" > "$T/overlay.json"
  (cd "$VERIF/harness" && go build "$@" -ldflags=-checklinkname=0 -modfile "$T/go.mod" -overlay "$T/overlay.json" -o "$T/harness" .)
}

RACE=""
case $ID in C35) RACE="-race -tags=web"; export GORACE="halt_on_error=1" ;; esac
build $RACE > "$T/build.log" 2>&1 || { cat "$T/build.log"; echo "build failed"; exit 2; }
"$T/harness" -prop "$ID" -tier "$TIER" -seed "$SEED" -scratch "$T/scratch" -bin "$T/goledger" \
  -evidence "$VERIF/evidence/$ID.json" -replays "$VERIF/replays" -known "$VERIF/KNOWN_FINDINGS.txt" "$@"
