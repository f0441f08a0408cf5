#!/bin/bash
# check.sh PROPERTY quick|thorough: builds the framework and /repo's working tree, explores, and cleans up.
# Exit 0: the property held on everything explored; 1: VIOLATION; 2: the check could not be done.
V=$(cd "$(dirname "$0")" && pwd)
P=$1; T=${2:-${VERIF_TIER:-quick}}
cd "$V" || exit 2
mkdir -p "$V/.build" "$V/evidence"
( flock 9; make -s -C "$V/harness" -j8 >"$V/.build/make.log" 2>&1 ) 9>"$V/.build/lock" || { cat "$V/.build/make.log" >&2; echo "cannot build the framework" >&2; exit 2; }
S=$(mktemp -d "${TMPDIR:-/tmp}/lbmc.XXXXXX") || exit 2
trap 'case "$S" in */lbmc.*) find "$S" -delete;; esac' EXIT
"$V/harness/build_sut.sh" "$S" || { echo "cannot build the interpreter from /repo" >&2; exit 2; }
"$V/.build/lbmc" check "$S/sut.so" "$P" "$T" "$V"
r=$?
if [ $r = 0 ] && [ -f "$V/known-findings.txt" ]; then grep "^KNOWN-FINDING: property=$P " "$V/known-findings.txt" || true; fi
exit $r
