#!/bin/bash
# check.sh <property> <quick|thorough>        decide a property on /repo's current tree
# check.sh <property> replay <file>           replay a violation
# check.sh build <dir>                        only build the simulator into <dir>
# exit 0 held, 1 violation, 2 the check could not run
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
export GOLOG_LOG_LEVEL=fatal
repo="${SIM_REPO:-/repo}"
prop="$1"; mode="${2:-quick}"
[ "$mode" != replay ] || set -- "$1" replay "$(realpath -- "$3")"
work="$(mktemp -d "${TMPDIR:-/tmp}/sim.XXXXXX")" || exit 2
trap 'rm -rf "$work"' EXIT
trap 'exit 2' INT TERM

build() {
  cp "$here/sim/go.mod" "$work/go.mod" && cp "$here/sim/go.sum" "$work/go.sum" || return 2
  if [ "$repo" != /repo ]; then sed -i "s#=> /repo#=> $repo#" "$work/go.mod"; fi
  cd "$here/sim" || return 2
  go build -modfile "$work/go.mod" -o "$work/instr" ./instr || return 2
  local level
  for level in full nomap; do
    mkdir -p "$work/ov-$level"
    if "$work/instr" -repo "$repo" -modfile "$work/go.mod" -out "$work/ov-$level" -level "$level" >"$work/instr.log" 2>&1 &&
       go test -modfile "$work/go.mod" -overlay "$work/ov-$level/overlay.json" -vet=off -c -o "$work/sim.test" ./run >"$work/build.log" 2>&1; then
      cp "$work/ov-$level/points.json" "$work/points.json"
      [ "$level" = full ] || echo "note: built with instrumentation level $level" >&2
      return 0
    fi
  done
  cat "$work/instr.log" "$work/build.log" >&2
  return 2
}

build || { echo "check could not be built" >&2; exit 2; }
if [ "$prop" = build ]; then
  mkdir -p "$mode" && cp "$work/sim.test" "$work/points.json" "$mode/"; exit $?
fi
export SIM_CMD=drive SIM_PROP="$prop" SIM_TIER="$mode" SIM_OUT="${SIM_OUT:-$here}" SIM_POINTS="$work/points.json" SIM_SCRATCH="$work" SIM_KNOWN="$here/known_findings.json"
if [ "$mode" = replay ]; then export SIM_REPLAY="$3"; fi
"$work/sim.test" -test.timeout=0
rc=$?
[ $rc -le 2 ] || rc=2
exit $rc
