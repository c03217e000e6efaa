#!/bin/bash
# threads.sh TIER SEED: decides C23 (real threads, ThreadSanitizer, and Miri / AddressSanitizer when thorough).
set -u
tier="$1"; seed="$2"
here="$(cd "$(dirname "$0")" && pwd)"
ev="${YV_DIR:-$(dirname "$here")}/evidence"
cd "$here" || exit 2
mkdir -p "$ev"
tmp="$(mktemp -d)"
trap '/bin/rm -rf "$tmp"' EXIT
t0=$(date +%s.%N)
target=x86_64-unknown-linux-gnu
fail=0
violations=()

note() { echo "$*"; }

build() { # name, toolchain args..., env RF
  local log="$tmp/build-$1.log"; shift
  if ! "$@" >"$log" 2>&1; then tail -40 "$log" >&2; return 1; fi
}

if [ "$tier" = thorough ]; then pn=8; pt=170; tn=5; tt=130; mt=150; else pn=4; pt=18; tn=4; tt=16; mt=0; fi

collect() { # name rc out log
  local name="$1" rc="$2" out="$3" log="$4"
  if [ "$rc" = 0 ]; then return; fi
  local replay="$ev/replay-C23-$name.txt"
  { echo "property C23"; echo "run $name (exit $rc)"; grep -aE "FOUND|WARNING: ThreadSanitizer|ERROR: |Undefined Behavior|error:" "$log" | head -20; echo "--- output"; head -c 60000 "$log"; } >"$replay"
  if grep -aqE "FOUND|WARNING: ThreadSanitizer|ERROR: AddressSanitizer|Undefined Behavior|Data race|the evaluated program (deadlocked|leaked)|memory leaked|panicked at" "$log"; then
    grep -aE "FOUND|WARNING: ThreadSanitizer|ERROR: AddressSanitizer|Undefined Behavior|deadlock|leaked|panicked at" "$log" | head -5
    violations+=("$replay")
  else
    echo "internal error: $name ended with $rc" >&2; tail -5 "$log" >&2; fail=2
  fi
}

run() { # name count seconds seedbase binary args...
  local name="$1" n="$2" secs="$3" sb="$4"; shift 4
  local pids=() i
  for ((i = 0; i < n; i++)); do
    timeout -k 5 $((secs + 160)) "$@" --cases 1000000 --budget "$secs" --seed $((seed * 1000 + sb + i)) --build "$name" --out "$tmp/$name-$i.json" >"$tmp/$name-$i.log" 2>&1 &
    pids+=($!)
  done
  for ((i = 0; i < n; i++)); do
    wait "${pids[$i]}"; collect "$name-$i" $? "$tmp/$name-$i.json" "$tmp/$name-$i.log"
  done
}

# 1. The real code, threads, injected delays.
build plain env RUSTFLAGS="--cfg yamux_verif" cargo build --offline --profile chk --bin yvt || exit 2
# The sanitized build proceeds meanwhile.
(build tsan env RUSTFLAGS="-Zsanitizer=thread --cfg yv_sanitize" cargo +nightly build --offline -Zbuild-std --target $target --profile chk --bin yvt --target-dir target/tsan) &
bpid=$!
run plain "$pn" "$pt" 0 ./target/chk/yvt
wait $bpid || exit 2

# 2. Under ThreadSanitizer.
export TSAN_OPTIONS="exitcode=66 halt_on_error=1 history_size=5 second_deadlock_stack=1"
run tsan "$tn" "$tt" 100 "./target/tsan/$target/chk/yvt"

if [ "$tier" = thorough ]; then
  # 3. Under AddressSanitizer.
  build asan env RUSTFLAGS="-Zsanitizer=address --cfg yv_sanitize" cargo +nightly build --offline -Zbuild-std --target $target --profile chk --bin yvt --target-dir target/asan || exit 2
  export ASAN_OPTIONS="detect_leaks=0"
  run asan 5 60 200 "./target/asan/$target/chk/yvt"
  # 4. Interpreted by Miri: undefined behaviour, races, leaks, weak memory.
  export MIRIFLAGS="-Zmiri-disable-isolation"
  for ((i = 0; i < 6; i++)); do
    (
      export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-seed=$((seed * 100 + i)) -Zmiri-preemption-rate=0.05"
      timeout -k 5 $((mt + 420)) cargo +nightly miri run --offline --manifest-path miri/Cargo.toml --target-dir "target/miri" -- --cases 1000 --budget "$mt" --small 1 --log 0 --seed $((seed * 1000 + 300 + i)) --build miri --out "$tmp/miri-$i.json" >"$tmp/miri-$i.log" 2>&1
      echo $? >"$tmp/miri-$i.rc"
    ) &
    [ $i = 0 ] && sleep 45
  done
  wait
  for ((i = 0; i < 6; i++)); do collect "miri-$i" "$(cat "$tmp/miri-$i.rc")" "$tmp/miri-$i.json" "$tmp/miri-$i.log"; done
fi

python3 - "$tmp" "$ev/C23.json" "$tier" "$seed" "$(echo "$(date +%s.%N) - $t0" | bc)" "${#violations[@]}" <<'P'
import sys, json, glob, os
tmp, out, tier, seed, wall, nv = sys.argv[1:]
runs = {}
for f in sorted(glob.glob(tmp + '/*.json')):
    try: d = json.load(open(f))
    except Exception: continue
    if 'build' not in d: continue
    r = runs.setdefault(d['build'], {'processes': 0, 'evaluations': 0, 'distinct_schedules': 0, 'observed': {}, 'samples': []})
    r['processes'] += 1
    r['evaluations'] += d['evaluations']
    r['distinct_schedules'] += d['distinct_schedules']
    for k, v in d['observed'].items():
        r['observed'][k] = max(v, r['observed'].get(k, 0)) if k == 'distinct_log_points' else r['observed'].get(k, 0) + v
    r['samples'] += d['samples'][:2]
samples = [s for r in runs.values() for s in r.pop('samples')[:3]]
json.dump({
    'property': 'C23', 'tier': tier, 'seed': int(seed), 'level': 'exploration',
    'coverage': {
        'evaluations': sum(r['evaluations'] for r in runs.values()),
        'distinct_nontrivial': sum(r['distinct_schedules'] for r in runs.values()),
        'rule': 'one case is one seeded workload on a pool of real threads; its schedule is a hash of the order in which each worker polled which task; all cases exchange data between threads',
        'runs': runs, 'samples': samples},
    'assumptions': ['schedules come from the operating system and injected delays, so a replay repeats the workload, not the schedule'],
    'wall_s': float(wall), 'violations': int(nv)}, open(out, 'w'), indent=1)
t = {k: (r['evaluations'], r['observed'].get('stream_ends')) for k, r in runs.items()}
print('C23', tier, 'seed', seed, 'cases and stream ends per build:', t)
P
[ $? = 0 ] || fail=4
for v in "${violations[@]}"; do echo "VIOLATION property=C23 replay=$v"; done
[ ${#violations[@]} -gt 0 ] && exit 1
exit $fail
