#!/bin/bash
# run.sh PROPERTY [quick|thorough]   check one property against /repo's working tree
# run.sh --replay FILE               execute a recorded violation again
# run.sh --setup                     compile everything once (fills Go's build cache)
# Environment: VERIF_SEED (default 1), VERIF_TIER (default quick), REPO (default /repo), RUNS, BUDGET (seconds).
set -u
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXX")" || exit 2
trap 'rm -rf "$work"' EXIT
race= # whether the race detector takes part
case "${1:-}" in
--setup | C07 | C13 | C18 | C20) race=race ;;
--replay) grep -qs '"race_detector": true' "$2" && race=race ;;
esac
bash "$here/sim/build.sh" "$work" $race || { echo "run.sh: cannot build the harness against ${REPO:-/repo}" >&2; exit 2; }
case "${1:-}" in
--setup) exit 0 ;;
--replay) "$work/harness" -mode replay -race "$work/harness-race" -replay "$2"; exit $? ;;
'') echo "usage: run.sh PROPERTY [quick|thorough] | --replay FILE | --setup" >&2; exit 2 ;;
esac
prop="$1"
tier="${2:-${VERIF_TIER:-quick}}"
[ -x "$work/harness-race" ] && race="$work/harness-race" || race=
"$work/harness" -prop "$prop" -race "$race" -tier "$tier" -seed "${VERIF_SEED:-1}" -runs "${RUNS:-0}" -budget "${BUDGET:-0}" \
	-evidence "$here/evidence/$prop.json" -replays "$here/replays" -known "$here/known_findings.txt"
