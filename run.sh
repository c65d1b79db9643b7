#!/bin/bash
# run.sh build | check ID TIER | replay FILE [v] | one PROP SEED RUN [v]
cd "$(dirname "$0")" || exit 2
V=$PWD
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOSUMDB=off
B=$V/.build
R=${VERIF_REPO:-/repo} # development only: another working tree
mkdir -p "$B"
build() {
	exec 9>"$B/lock"; flock 9
	local h
	h=$( { go version; find simrt rewriter harness -type f \( -name '*.go' -o -name 'go.mod' -o -name 'go.sum' -o -path '*/images/*' \) -print0 | sort -z | xargs -0 sha256sum
	       cd "$R" && find . -path ./.git -prune -o -type f \( -name '*.go' -o -name 'go.mod' -o -name 'go.sum' \) -print0 | sort -z | xargs -0 sha256sum; } | sha256sum | cut -c1-24)
	BIN=$B/harness-$h
	if [ ! -x "$BIN" ]; then
		(cd rewriter && go build -o "$B/rewriter" .) || return 2
		rm -rf "$B/src" "$B/gen"
		mkdir -p "$B/src"
		(cd "$R" && find . -path ./.git -prune -o -path ./test -prune -o -type f \( -name '*.go' -o -name 'go.mod' -o -name 'go.sum' \) -print0 | tar --null -T - -cf -) | tar -C "$B/src" -xf - || return 2
		cp -r harness/zzclient "$B/src/"
		"$B/rewriter" -src "$B/src" -out "$B/gen" -simrt "$V/simrt" > "$B/rewrite.log" 2>&1 || { cat "$B/rewrite.log"; return 2; }
		(cd harness && go build -o "$BIN.tmp" . ) || return 2
		find "$B" -maxdepth 1 -name 'harness-*' ! -name "harness-$h*" -mmin +30 -delete
		mv "$BIN.tmp" "$BIN"
	fi
	flock -u 9
}
case "$1" in
build) build || exit 2; cat "$B/rewrite.log" ;;
bin) build >&2 || exit 2; echo "$BIN" ;;
check)
	build || { echo "TROUBLE: build failed"; exit 2; }
	"$BIN" check -prop "$2" -tier "${3:-${VERIF_TIER:-quick}}" -seed "${VERIF_SEED:-1}" -verif "$V" "${@:4}" ;;
replay) build || exit 2; "$BIN" replay "${@:2}" ;;
one) build || exit 2; "$BIN" one "${@:2}" ;;
*) echo "usage: $0 build|check|replay|one"; exit 2 ;;
esac
