#!/bin/bash
# check.sh <property id> <quick|thorough>   build the simulator from /repo's current tree and run one check
# check.sh build                            only build
# check.sh replay <file>                    build and run a replay file
set -u
cd "$(dirname "${BASH_SOURCE[0]}")"
. sim/env.sh
# Threads meet the code under test as it is written, not as it is optimised.
what=${1:-}
[ "$what" = replay ] && grep -q '"property": *"C13"' "$2" && what=C13
if [ "$what" = C13 ]; then export VERIF_CUT="-C opt-level=0" CARGO_TARGET_DIR=$CARGO_TARGET_DIR/plain; fi
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.lock"
flock 9

# Cargo goes by modification times; go by contents.
tree=$( { find /repo -path /repo/.git -prune -o -path '*/target' -prune -o -type f \( -name '*.rs' -o -name '*.h' -o -name Cargo.toml \) -print0
          find "$PWD"/sim/src "$PWD"/sim/client "$PWD"/sim/build.rs "$PWD"/sim/Cargo.toml "$PWD"/sim/*.sh "$PWD"/shim "$PWD"/wrap -type f -print0; } | sort -z | xargs -0 sha256sum | sha256sum)
stamp=$CARGO_TARGET_DIR/.tree
if [ "$(cat "$stamp" 2>/dev/null)" != "$tree" ]; then
    rm -f "$stamp"
    for n in merlin aeonflux signal-credential credential-c credential-js credential-rust sim; do
        find "$CARGO_TARGET_DIR/release/.fingerprint" -maxdepth 1 -name "$n-*" -exec rm -rf {} + 2>/dev/null
    done
fi
log=$CARGO_TARGET_DIR/build.log
built=
for features in c,js c js ""; do
    if (cd sim && cargo build --release --no-default-features --features "$features") >"$log" 2>&1; then built=1; break; fi
    echo "note: does not build with interfaces '$features'"
    grep -m3 -A4 '^error' "$log"
done
if [ -z "$built" ]; then echo "the simulator does not build from /repo"; tail -40 "$log"; exit 2; fi
[ "$features" = c,js ] && echo "$tree" >"$stamp"
bin=$CARGO_TARGET_DIR/release/sim
run=$(mktemp "$CARGO_TARGET_DIR/sim.XXXXXX") && cp "$bin" "$run" && chmod +x "$run"
trap 'rm -f "$run"' EXIT
flock -u 9
case ${1:-} in
    build) exit 0 ;;
    replay) "$run" replay "$2"; exit $? ;;
esac
case "$1:$features" in C10:c*) ;; C10:*) echo "the C interface does not build: no answer"; exit 2 ;; esac
export VERIF_ROOT=$PWD
"$run" check "$1" "${2:-quick}" "${VERIF_SEED:-1}"
