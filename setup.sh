#!/bin/bash
# Builds every harness binary once, so that later builds start from a warm cache.
cd "$(dirname "$0")" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
mkdir -p .build evidence replays
python3 tools/overlay.py > .build/overlay.json || exit 1
build() { # build <area> <label> <flags...>
  (cd harness && go build -overlay "$OLDPWD/.build/overlay.json" "${@:3}" -o "$OLDPWD/.build/$1-$2" "./cmd/$1") || exit 1
}
for a in ec bp ccs ut; do build $a plain; done
build bn plain -tags verif_gf
build race race -race
for a in bp ec; do build $a asan -asan; done
exit 0
