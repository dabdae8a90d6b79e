#!/bin/bash
# run.sh <property> [quick|thorough]   decide a property on the current tree of /repo
# run.sh <property> --replay FILE      run the case of a replay file again
cd "$(dirname "$0")" || exit 3
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
V=$PWD
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
mkdir -p .build evidence replays
python3 tools/overlay.py > .build/overlay.json || exit 3

# area_of: the binary that holds the workloads of a property
case $prop in
  P0[1-9]|P34|P35|P37|P39|P40|P42|P15|P16|P17) area=bp;;
  P1[0-4]|P38|P41) area=ccs;;
  P18|P19|P20|P21) area=ec;;
  P22|P23|P24|P25|P26|P27|P36|P43) area=bn;;
  P28|P29|P30|P31|P32) area=ut;;
  P33) area=race;;
  *) echo "unknown property $prop" >&2; exit 3;;
esac

build() { # build <area> <label> <flags...>
  local out=.build/$1-$2
  # the tower of fields is reached through the layout of its types; without it only what is public is watched
  if [ $1 = bn ]; then
    (cd harness && go build -tags verif_gf -overlay "$V/.build/overlay.json" "${@:3}" -o "$V/$out" ./cmd/$1) 2>/dev/null && return
  fi
  (cd harness && go build -overlay "$V/.build/overlay.json" "${@:3}" -o "$V/$out" ./cmd/$1) >&2 || { echo "build of $1 failed" >&2; exit 3; }
}

run() { # run <area> <label> <flags...>
  local bin=.build/$1-$2
  "$bin" -prop "$prop" -tier "$tier" -seed "$seed" -known known_findings.txt \
     -evidence "evidence/$prop.json" -replays "$V/replays" -build "$2" "${@:3}"
}

label=plain
flags=()
if [ $area = race ]; then label=race; flags=(-race); fi
if [ "$2" = --replay ]; then
  read -r c tier seed label < <(python3 -c 'import json,sys; d=json.load(open(sys.argv[1])); print(d["case"].replace(" ","\x01"), d["tier"], d["seed"], d["build"])' "$3")
  [ $label = msan ] && { flags=(-msan); export CC=clang; }
  [ $label = asan ] && { flags=(-asan); export ASAN_OPTIONS=detect_leaks=0; }
  build $area $label "${flags[@]}"
  exec .build/$area-$label -prop "$prop" -tier "$tier" -seed "$seed" -case "${c//$'\x01'/ }"
fi
rm -f "evidence/$prop.json"
build $area $label "${flags[@]}"
run $area $label || exit $?

# The C library under p256.ScalarMult once more with AddressSanitizer, which also checks
# the Go side's accesses to memory shared with C; part of the cases in the quick tier.
case $prop in
  P07|P19)
    build $area asan -asan
    div=8; [ "$tier" = thorough ] && div=4
    ASAN_OPTIONS=detect_leaks=0 VERIF_MERGE=1 run $area asan -div $div || exit $?
    if [ "$tier" = thorough ]; then
      ( export CC=clang MSAN_OPTIONS=halt_on_error=1
        build $area msan -msan
        VERIF_MERGE=1 run $area msan -div $div ) || exit $?
      export CGO_CFLAGS="-g -O1 -fsanitize=undefined -fno-sanitize-recover=undefined" CGO_LDFLAGS=-fsanitize=undefined CGO_CFLAGS_ALLOW='-fno-sanitize.*'
      build $area ubsan
      VERIF_MERGE=1 run $area ubsan -div $div || exit $?
    fi;;
esac
exit 0
