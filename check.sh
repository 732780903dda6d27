#!/bin/bash
# Decides a property against the working tree of /repo.
#
#   check.sh ID                                     run the check (VERIF_SEED, VERIF_TIER)
#   check.sh ID --replay PHASE CASE                 run one case alone, verbosely
#   check.sh ID --replay-history PHASE CASE SHARD SHARDS   run a shard up to the case
#
# Exit status: 0 = held, 1 = violated (prints a VIOLATION line), other = no answer.
set -u
. /opt/vp/env.sh
VERIF="$(cd "$(dirname "$0")" && pwd)"
REPO="${VERIF_REPO:-/repo}"
ID="$1"; shift
SEED="${VERIF_SEED:-1}"
TIER="${VERIF_TIER:-quick}"
export VERIF_TIER="$TIER"
unset GODEBUG GOGC GOMEMLIMIT GOMAXPROCS GORACE
S="$(mktemp -d /tmp/verif.XXXXXXXX)" || exit 3
trap 'rm -rf "$S"' EXIT
mkdir -p "$VERIF/evidence/replay" "$S/run" "$S/bin"

# The harness is compiled as package main within /repo's module by an overlay.
python3 "$VERIF/harness/typegen.py" "$SEED" "${VERIF_TYPES:-120}" > "$S/types_gen.go" || exit 3
{
	printf '{"Replace":{'
	for f in "$VERIF"/harness/*.go; do
		printf '"%s/zzverif/%s":"%s",' "$REPO" "$(basename "$f")" "$f"
	done
	printf '"%s/zzverif/types_gen.go":"%s"}}\n' "$REPO" "$S/types_gen.go"
} > "$S/overlay.json"

# build VARIANT
build() {
	local flags=() env=()
	case "$1" in
	plain) env=(CGO_ENABLED=0) ;;
	race) flags=(-race); env=(CGO_ENABLED=1) ;;
	asan) flags=(-asan); env=(CGO_ENABLED=1 CC=gcc) ;;
	386) env=(GOARCH=386 CGO_ENABLED=0) ;;
	esac
	(cd "$REPO" && env "${env[@]}" "$GO" build "${flags[@]}" -overlay "$S/overlay.json" -o "$S/bin/vh-$1" ./zzverif) >"$S/build.log" 2>&1 || {
		echo "build of the harness ($1) failed:" >&2
		head -c 5000 "$S/build.log" >&2
		exit 3
	}
}

build plain
for v in $("$S/bin/vh-plain" variants "$ID"); do
	[ "$v" = plain ] || build "$v"
done

case "${1:-}" in
--replay | --replay-history)
	mode="$1"; phase="$2"; idx="$3"
	v=$("$S/bin/vh-plain" variant "$ID" "$phase")
	if [ "$mode" = --replay ]; then
		"$S/bin/vh-$v" worker -v -prop "$ID" -phase "$phase" -tier "$TIER" -seed "$SEED" -only "$idx"
	else
		"$S/bin/vh-$v" worker -v -prop "$ID" -phase "$phase" -tier "$TIER" -seed "$SEED" -shard "$4" -shards "$5" -upto "$idx"
	fi
	exit $?
	;;
esac

"$S/bin/vh-plain" run -prop "$ID" -tier "$TIER" -seed "$SEED" -evidence "$VERIF/evidence" -bins "$S/bin" -scratch "$S/run"
exit $?
