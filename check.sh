#!/bin/bash
# check.sh <property> [quick|thorough]   decide one property on /repo's working tree
# check.sh replay <file>                 run one recorded case again
# check.sh build                         build everything (setup)
#
# Exit 0: held; 1 with a VIOLATION line: broken; anything else: no verdict.
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here"
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
hook="--cfg verif_hooks "
lint="--cap-lints allow"
cov="-C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard -C llvm-args=-sanitizer-coverage-trace-geps"
host="$(rustc -vV | sed -n 's/^host: //p')"

# build <profile> <bin>: sets $exe
build() {
    local profile="$1" bin="$2" flags="$lint" crate="$here/harness" dir="$here/harness/target" sub="" extra=()
    if [ "$profile" = trace ]; then
        # Only the target's crates are instrumented, not the build scripts.
        flags="$lint $cov"
        crate="$here/trace"
        dir="$here/trace/target"
        extra=(--target "$host")
        sub="$host/"
    fi
    local log="$dir/$profile-$bin.log"
    mkdir -p "$dir"
    cargo_build() {
        (cd "$crate" && RUSTFLAGS="$1" CARGO_TARGET_DIR="$dir" cargo build --offline --locked --profile "$profile" --bin "$bin" "${extra[@]}") >"$log" 2>&1
    }
    # A change may leave the guarded hook behind, which no ordinary build
    # compiles; the harness then does without it (harness/src/access.rs).
    # Likewise C09's own implementation of the field interface, where a change
    # extended that.
    if ! cargo_build "$hook$flags" && ! cargo_build "$flags" &&
       ! { [ "$bin" = generic ] && { cargo_build "--cfg verif_no_tiny $hook$flags" || cargo_build "--cfg verif_no_tiny $flags"; }; }; then
        grep -A12 '^error' "$log" | head -60 >&2
        echo "check.sh: building $bin ($profile) failed, see $log" >&2
        exit 2
    fi
    exe="$dir/$sub$profile/$bin"
}

bin_of() {
    case "$1" in
        F18|C08) echo "trace trace" ;;
        F*) echo "release fields" ;;
        C09) echo "release generic" ;;
        C*) echo "release curves" ;;
        *) echo "check.sh: unknown property $1" >&2; exit 2 ;;
    esac
}

case "$1" in
    build)
        build release fields; build release curves; build release generic
        build fast fields; build fast curves; build trace trace
        exit 0 ;;
    replay)
        file="$(realpath "$2")"
        id="$(sed -n 's/^property //p' "$file")"
        set -- $(bin_of "$id") || exit 2
        if grep -q '^profile fast' "$file"; then set -- fast "$2"; fi
        build "$1" "$2"
        exec "$exe" replay "$file" ;;
esac

id="$1"
if [ -n "$2" ]; then export VERIF_TIER="$2"; fi
set -- $(bin_of "$id") || exit 2
[ -n "$1" ] || exit 2

if [ "$id" != F17 ] && [ "$id" != C12 ]; then
    build "$1" "$2"
    exec "$exe" "$id"
fi

# F17, C12: the same cases in a checked and in an unchecked build.
build release "$2"
checked="$exe"
build fast "$2"
fast="$exe"
scratch="$(mktemp -d)" || exit 2
trap 'rm -rf "$scratch"' EXIT
mkdir "$scratch/fast"
VERIF_PROFILE=fast VERIF_EVIDENCE="$scratch/fast" "$fast" "$id" >"$scratch/fast.out" 2>"$scratch/fast.err"
fc=$?
b="$(sed -n 's/^digest //p' "$scratch/fast.out")"
VERIF_NOTE="the same cases ran in an unchecked build first: $(grep "^$id:" "$scratch/fast.out"), results hash $b" \
    "$checked" "$id" >"$scratch/checked.out" 2>"$scratch/checked.err"
cc=$?
cat "$scratch/checked.err" "$scratch/fast.err" >&2
if [ $cc -ne 0 ]; then cat "$scratch/checked.out"; exit $cc; fi
if [ $fc -ne 0 ]; then
    cat "$scratch/fast.out"
    cp "$scratch/fast/$id.json" "$here/evidence/$id.json"
    exit $fc
fi
a="$(sed -n 's/^digest //p' "$scratch/checked.out")"
cat "$scratch/checked.out"
echo "unchecked build: $(head -1 "$scratch/fast.out"), digest $b"
if [ "$a" != "$b" ]; then
    mkdir -p "$here/replays"
    r="$here/replays/$id-${VERIF_SEED:-1}-digest.txt"
    printf 'property %s\nunit digest\nseed %s\nreason results of the checked build hash to %s, of the unchecked one to %s\n' "$id" "${VERIF_SEED:-1}" "$a" "$b" >"$r"
    echo "VIOLATION property=$id replay=$r"
    exit 1
fi
exit 0
