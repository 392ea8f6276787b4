#!/bin/bash
# run.sh PROPERTY [quick|thorough] [extra simulator flags]   decide one property
# run.sh replay FILE                                         replay a recorded violation
# run.sh build DIR                                           only build the simulator into DIR
# Builds the simulator from /repo's current working tree (through an overlay: /repo is not
# touched), runs it, and removes what it built.
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root}
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
what=${1:?property}
work=$(mktemp -d /tmp/vsim.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT

build() { # $1: flags for instr
    rm -rf "$work/ov" && mkdir -p "$work/ov" || return 1
    "$work/instr" -repo "$repo" -sim "$here/sim" -out "$work/ov" $1 > "$work/instr.out" || return 1
    cp "$repo/go.mod" "$work/go.mod" && cp "$repo/go.sum" "$work/go.sum" || return 1
    (cd "$repo" && go build -overlay "$work/ov/overlay.json" -modfile "$work/go.mod" -o "$work/sim" .)
}

(cd "$here/sim/instr" && go build -o "$work/instr" .) || exit 2
serial=
if ! build "" 2> "$work/build.err" || grep -q goroutines "$work/instr.out"; then
    # Code that starts goroutines of its own, or that the yields do not fit into.
    serial=-serial
    build -plain || { cat "$work/build.err" >&2; echo "the simulator does not build against this tree" >&2; exit 2; }
fi

case $what in
build) cp "$work/sim" "${2:?directory}/sim"; echo "$serial"; exit 0 ;;
replay) "$work/sim" $serial -replay "${2:?file}"; exit $? ;;
esac
tier=${2:-${VERIF_TIER:-quick}}
shift; shift
"$work/sim" $serial -prop "$what" -tier "$tier" -seed "${VERIF_SEED:-1}" -out "$here/out" -known "$here/KNOWN_FINDINGS" "$@"
exit $?
