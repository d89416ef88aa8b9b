#!/bin/bash
# thorough.sh <id>: the deep tier of one property.
# Three explorations, the first violation ends it:
#  1. coverage-guided fuzzing (libFuzzer) of the same case functions, every facet,
#     several processes with seeds derived from VERIF_SEED;
#  2. the cases of the random generators on a build without overflow checks (what
#     a release build of the library does);
#  3. the random generators with enlarged sizes and counts (tier thorough).
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_TIER=thorough VERIF_DIR=$here
id=$1
seed=${VERIF_SEED:-1}
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT

fuzz() {
    local vh=$here/target/hooks/release/vh bin=$here/target/fuzz/x86_64-unknown-linux-gnu/release/case
    local jobs=${FUZZ_JOBS:-8} runs=${FUZZ_RUNS:-400000} secs=${FUZZ_SECONDS:-200} n=0 total=0 f w rc out pids
    VERIF_PROFILE=release "$here/check.sh" build || return 2
    [ -x "$vh" ] || vh=$here/target/plain/release/vh
    (
        flock 9
        rm -rf "$here/target/fuzz/x86_64-unknown-linux-gnu/release/.fingerprint"/rusty_network-*
        cd "$here" && { RUSTFLAGS="--cfg verif_hooks" cargo fuzz build --fuzz-dir fuzz -s none --target-dir "$here/target/fuzz" case ||
            cargo fuzz build --fuzz-dir fuzz -s none --target-dir "$here/target/fuzz" case; } >"$here/target/fuzz.log" 2>&1
    ) 9>"$here/target/fuzz.lock" || { echo "note: the coverage-guided target does not build here, left out" >&2; return 0; }
    n=$("$vh" facets "$id" | wc -l)
    echo 0 >"$work/total"
    while IFS= read -r f; do
        pids=()
        for w in $(seq 1 "$jobs"); do
            out=$work/w$w
            mkdir -p "$out/corpus" "$out/tmp"
            VH_PROPERTY=$id VH_FACET=$f TMPDIR=$out/tmp "$bin" -runs="$runs" -max_total_time=$((secs / n)) -max_len=4096 \
                -seed=$((seed * 1000 + w)) -timeout=300 -rss_limit_mb=3500 -artifact_prefix="$out/" "$out/corpus" >"$out/log" 2>&1 &
            pids+=($!)
        done
        rc=0
        for w in $(seq 1 "$jobs"); do
            wait "${pids[$((w - 1))]}"
            out=$work/w$w
            total=$(($(cat "$work/total") + $(sed -n 's/^Done \([0-9]*\) runs.*/\1/p' "$out/log" | tail -1 | grep . || echo 0)))
            echo $total >"$work/total"
            for a in "$out"/crash-*; do
                [ -e "$a" ] && [ $rc -eq 0 ] || continue
                TMPDIR=$out/tmp "$vh" bytes "$id" "$f" "$a"
                rc=$?
                [ $rc -gt 1 ] && { echo "error: fuzzing $f ended abnormally:" >&2; tail -5 "$out/log" >&2; }
            done
            for a in "$out"/timeout-* "$out"/oom-*; do
                [ -e "$a" ] && { echo "error: fuzzing $f: $(basename "$a")" >&2; [ $rc -eq 0 ] && rc=3; }
            done
            rm -rf "$out"
        done
        [ $rc -eq 0 ] || return $rc
    done < <("$vh" facets "$id")
    return 0
}

fuzz
rc=$?
[ $rc -eq 0 ] || exit $rc
VERIF_PROFILE=plain VERIF_SCALE=${VERIF_SCALE_PLAIN:-0.2} "$here/check.sh" "$id" || exit $?
plain=$(sed -n 's/.*"coverage":{"evaluations":\([0-9]*\).*/\1/p' "$here/evidence/$id.json")
"$here/check.sh" "$id" || exit $?
fz=$(cat "$work/total" 2>/dev/null || echo 0)
sed -i "s/\"coverage\":{/\"coverage\":{\"fuzz_executions\":${fz:-0},\"evaluations_without_overflow_checks\":${plain:-0},/" "$here/evidence/$id.json"
echo "$id: also held on ${fz:-0} coverage-guided executions and ${plain:-0} cases without overflow checks"
