#!/bin/bash
# ./check.sh ID [thorough]  builds the explorer from /repo's working tree and decides property ID
# ./check.sh --build builds everything
# Exit: 0 held, 1 violation, 2 no verdict (does not build, ran out of memory, ...).
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export VERIF_DIR="$PWD" CARGO_NET_OFFLINE=true
ID=$1
[ "$2" = thorough ] && export VERIF_TIER=thorough
bin_of() {
    case "$1" in
        C0[1-5]) echo core ;;
        C1[0234]) echo front ;;
        C17|C20|C26) echo util ;;
        C1[5689]) echo zk ;;
        C0[6789]) echo circ ;;
        C25) echo ffi ;;
        C2[1234789]) echo std ;;
        *) echo none ;;
    esac
}
build() {
    mkdir -p target
    exec 9>target/.check-lock
    flock 9
    local now
    now=$(find /repo/expander_compiler /repo/circuit-std-rs -name target -prune -o \( -name '*.rs' -o -name Cargo.toml \) -type f -print0 |
        sort -z | xargs -0 sha256sum | sha256sum)
    # cargo goes by modification times; go by content as well
    if [ "$now" != "$(cat target/.stamp 2>/dev/null)" ] && [ -e target/release ]; then
        cargo clean --release --offline -p expander_compiler -p macros -p circuit-std-rs -p ec_go_lib >/dev/null 2>&1
    fi
    rm -f target/.stamp
    local p ok=0
    for p in "$@"; do
        cargo build --release --offline -q --bin "$p" 2>target/build-$p.log || { ok=1; grep -A12 '^error' target/build-$p.log >&2; }
    done
    [ $ok = 0 ] && echo "$now" >target/.stamp
    flock -u 9
    return $ok
}
if [ "$ID" = --build ]; then
    build core front util zk circ std ffi
    exit
fi
P=$(bin_of "$ID")
build "$P" || { echo "check $ID: the tree does not build" >&2; exit 2; }
mkdir -p evidence/replay
rm -f "evidence/$ID.json" "evidence/replay/$ID-"*.json
MC_OUT_FD=3 "./target/release/$P" "$ID" 3>&1 1>/dev/null 2>"evidence/$ID.stderr"
rc=$?
case $rc in
    0|1) exit $rc ;;
    132|134|135|136|139)
        # the code under test took the whole process down (abort, stack overflow, ...)
        echo "{\"property\": \"$ID\", \"crash\": $rc, \"rerun\": \"./check.sh $ID\"}" >"evidence/replay/$ID-crash.json"
        echo "VIOLATION property=$ID replay=$PWD/evidence/replay/$ID-crash.json the process crashed with status $rc: $(tail -3 evidence/$ID.stderr | tr '\n' ' ')"
        exit 1 ;;
esac
tail -5 "evidence/$ID.stderr" >&2
exit 2
