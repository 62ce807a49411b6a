#!/bin/bash
# check.sh <property> quick|thorough   build from /repo's working tree, then search
# check.sh replay <file>               run a recorded violation again
# check.sh setup                       build only
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_TARGET_DIR="$here/sim/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
cd "$here/sim" || exit 2
mkdir -p target
if ! cargo build --release --offline --message-format=json >target/build.json 2>target/build.log; then
    cat target/build.log >&2
    python3 - target/build.json >&2 <<'P'
import json, sys
for line in open(sys.argv[1]):
    try:
        m = json.loads(line)
    except ValueError:
        continue
    if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
        print(m["message"]["rendered"])
P
    echo "the simulator does not build against /repo" >&2
    exit 2
fi

derive_tools() {
    local sysroot
    sysroot="$(rustc --print sysroot)" || return 1
    python3 - "$here/sim" "$sysroot/bin/rustc" <<'P' || return 1
import json, os, sys
sim, rustc = sys.argv[1:]
found = {}
for line in open(sim + "/target/build.json"):
    try:
        m = json.loads(line)
    except ValueError:
        continue
    if m.get("reason") == "compiler-artifact" and m["target"]["name"] in ("opg", "opg_derive"):
        for f in m["filenames"]:
            if f.endswith((".rlib", ".so")):
                found[m["target"]["name"]] = f
lines = [rustc, sim + "/target/release/deps", found["opg"], found["opg_derive"],
         sim + "/target/shim/libser.so", sim + "/target/shim/chaos.so", sim + "/target/c12-scratch"]
open(sim + "/target/c12.paths", "w").write("\n".join(lines) + "\n")
P
    mkdir -p target/shim target/c12-scratch
    if [ ! -e target/shim/chaos.so ] || [ shim/chaos.c -nt target/shim/chaos.so ]; then
        gcc -O1 -shared -fPIC -o target/shim/chaos.so shim/chaos.c -ldl || return 1
    fi
    if [ ! -e target/shim/libser.so ] || [ shim/ser.rs -nt target/shim/libser.so ]; then
        rustc --edition 2021 --crate-type proc-macro --crate-name ser -o target/shim/libser.so shim/ser.rs || return 1
    fi
}

case "${1:-}" in
setup)
    derive_tools || exit 2
    exit 0
    ;;
C12 | replay)
    derive_tools || { echo "cannot prepare the compiler for C12" >&2; exit 2; }
    ;;
esac
if [ "${1:-}" = replay ]; then
    exec target/release/opgsim replay "$2"
fi
OPGSIM_ROOT="$here" exec target/release/opgsim check "$1" "${2:-quick}" ${3:-}
