#!/bin/bash
# bash check.sh <PROPERTY> <quick|thorough>       run one monitor against /repo's working tree
# bash check.sh --replay <PROPERTY> <tier> <seed> <case>
# bash check.sh --setup                           build the harnesses
cd "$(dirname "$(realpath "$0")")" || exit 2
V=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 VERIF_ROOT=$V

# forget what cargo believes about /repo's crates when their content changed, whatever the time stamps say
fresh() { # target-dir stamp-name packages...
    local t=$1 n=$2; shift 2
    local h
    h=$(cd /repo && find Cargo.toml Cargo.lock crates \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' \) -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    if [ "$(cat "$t/.repo-stamp-$n" 2>/dev/null)" != "$h" ]; then
        find "$t" -maxdepth 3 -type d -path '*/.fingerprint/*' \( -name 'rerecast-*' -o -name 'bevy_rerecast*' -o -name 'avian_rerecast-*' -o -name 'mon-*' -o -name 'monb-*' -o -name 'mone-*' \) -print0 2>/dev/null | xargs -0r rm -rf
        mkdir -p "$t"; echo "$h" > "$t/.repo-stamp-$n"
    fi
}
core() {
    local t=$V/harness/target
    fresh "$t" core
    (cd "$V/harness/core" && CARGO_TARGET_DIR=$t cargo build --release --offline --locked -q 2> "$t/build.log") || { tail -n 40 "$t/build.log"; echo "ERROR: the harness does not build"; return 2; }
}
# the same harness with the guarded accessors of /repo switched on (C01)
hooked() {
    local t=$V/harness/target-hook
    fresh "$t" hook
    (cd "$V/harness/core" && RUSTFLAGS="--cfg rerecast_hooks" CARGO_TARGET_DIR=$t cargo build --release --offline --locked -q 2> "$t/build.log") || { tail -n 40 "$t/build.log"; echo "ERROR: the harness does not build with hooks"; return 2; }
}
bevy() {
    local t=$V/harness/target-bevy
    fresh "$t" bevy
    (cd "$V/harness/bevy" && CARGO_TARGET_DIR=$t CARGO_PROFILE_DEV_DEBUG=0 cargo build --offline --locked -q 2> "$t/build.log") || { tail -n 40 "$t/build.log"; echo "ERROR: the Bevy harness does not build"; return 2; }
}
editor() {
    local t=$V/harness/target-bevy
    fresh "$t" editor
    (cd "$V/harness/editor" && CARGO_TARGET_DIR=$t CARGO_PROFILE_DEV_DEBUG=0 cargo build --offline --locked -q 2> "$t/build.log") || { tail -n 40 "$t/build.log"; echo "ERROR: the editor harness does not build"; return 2; }
}
case "$1" in
--setup)
    core || exit 2
    hooked || exit 2
    bevy || exit 2
    editor || exit 2
    exit 0 ;;
--replay)
    case "$2" in
    B1*) editor || exit 2
        exec "$V/harness/target-bevy/debug/mone" replay "$2" "$3" "$4" "$5" ;;
    B*) bevy || exit 2
        exec "$V/harness/target-bevy/debug/monb" replay "$2" "$3" "$4" "$5" ;;
    esac
    [ "$2" = C01 ] && { hooked || exit 2; exec "$V/harness/target-hook/release/mon" replay "$2" "$3" "$4" "$5"; }
    core || exit 2
    exec "$V/harness/target/release/mon" replay "$2" "$3" "$4" "$5" ;;
B1*)
    editor || exit 2
    exec "$V/harness/target-bevy/debug/mone" "$1" "${2:-quick}" "${VERIF_SEED:-1}" ;;
B*)
    bevy || exit 2
    exec "$V/harness/target-bevy/debug/monb" "$1" "${2:-quick}" "${VERIF_SEED:-1}" ;;
C01)
    hooked || exit 2
    exec "$V/harness/target-hook/release/mon" "$1" "${2:-quick}" "${VERIF_SEED:-1}" ;;
*)
    core || exit 2
    exec "$V/harness/target/release/mon" "$1" "${2:-quick}" "${VERIF_SEED:-1}" ;;
esac
