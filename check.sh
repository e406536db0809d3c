#!/bin/bash
# check.sh <property> quick|thorough      run a check
# check.sh <property> replay <file>       run one recorded case again
# check.sh build                          only build
#
# Builds the harness against /repo's working tree, and the program itself, then
# runs the check. Exit 0: held; 1: violated (VIOLATION line); 2: no answer.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
repo=/repo
id="$1"; tier="${2:-quick}"
export RUST_BACKTRACE=0
export CARGO_NET_OFFLINE=true
export VERIF_KNOWN="$here/known_findings.txt"
target="$here/target"
mkdir -p "$target" "$here/evidence" || exit 2

build() {
    # cargo goes by modification times; go by contents as well
    local now old
    now="$(cd "$repo" && find src bin Cargo.toml Cargo.lock -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)"
    old="$(cat "$target/repo.sha" 2>/dev/null)"
    if [ "$now" != "$old" ]; then
        rm -f "$target/repo.sha"
        CARGO_TARGET_DIR="$target/harness" cargo clean --release --offline --quiet -p tiny_spice --manifest-path "$here/harness/Cargo.toml" >/dev/null 2>&1
        CARGO_TARGET_DIR="$target/cli" cargo clean --release --offline --quiet -p tiny_spice --manifest-path "$repo/Cargo.toml" >/dev/null 2>&1
    fi
    CARGO_TARGET_DIR="$target/harness" cargo build --release --offline --quiet --manifest-path "$here/harness/Cargo.toml" || return 1
    # the program with the checks of a debug build
    CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true CARGO_PROFILE_RELEASE_OPT_LEVEL=1 \
    CARGO_TARGET_DIR="$target/cli" cargo build --release --offline --quiet --bin tiny-spice-rs --manifest-path "$repo/Cargo.toml" || return 1
    echo "$now" > "$target/repo.sha"
}

log="$target/build.log"
if ! ( flock 9; build >"$log" 2>&1 ) 9>"$target/lock"; then
    echo "ERROR the build failed:"
    tail -40 "$log"
    exit 2
fi
[ "$id" = build ] && exit 0

export VERIF_CLI="$target/cli/release/tiny-spice-rs"
export TMPDIR="${TMPDIR:-/tmp}"
ulimit -f 524288       # 512 MB files: a runaway waveform file ends the case
ulimit -v 8388608      # 8 GB address space per process
ulimit -c 0
bin="$target/harness/release/harness"
if [ "$tier" = replay ]; then
    d="$(mktemp -d)" || exit 2
    "$bin" replay "$3" "$d"
    rc=$?
    rm -rf "$d"
    exit $rc
fi
exec "$bin" run "$id" "$tier" "${VERIF_SEED:-1}" "$here"
