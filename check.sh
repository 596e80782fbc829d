#!/bin/bash
# check.sh ID [quick|thorough]   decides one property on /repo's working tree
# check.sh replay FILE           runs the case of a replay file again
# check.sh build                 only builds
#
# VERIF_REPO names another tree than /repo (a scratch copy), VERIF_SEED the seed,
# VERIF_TIER the tier. Everything is built anew in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
repo=${VERIF_REPO:-/repo}
id=$1
if [ "$id" = replay ]; then
  id=$(sed -n 's/.*"property": *"\(C[0-9]*\)".*/\1/p' "$2" | head -1)
  VERIF_REPLAY=$2
elif [ -n "$2" ]; then
  export VERIF_TIER=$2
fi
export VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1}
work=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXX") || exit 3
chmod 755 "$work"
trap 'rm -rf "$work"' EXIT
export TMPDIR=$work

# The harness's module file, pointing at the tree under test.
sed "s#=> /repo#=> $repo#" "$here/harness/go.mod" > "$work/go.mod"
cp "$here/harness/go.sum" "$work/go.sum"
build() { # flags...
  (cd "$here/harness" && go build -modfile="$work/go.mod" "$@" -o "$work/vh" .)
}
with_trie() {
  printf '{"Replace":{"%s/vh_trie.go":"%s/overlay/vh_trie.go"}}' "$repo" "$here" > "$work/overlay.json"
  build -overlay "$work/overlay.json" -tags vhtrie
}
case $id in
C11) build -race ;;
C15) with_trie || { echo "note: built without the trie"; build; } ;;
build) with_trie && build -race && build; exit $? ;;
*) build ;;
esac || { echo "error: the harness does not build"; exit 3; }

export VH_GOROOT=$(go env GOROOT) VH_MODCACHE=$(go env GOMODCACHE) VH_REPO=$repo VH_VERIF=$here
cd "$work"
if [ -n "$VERIF_REPLAY" ]; then
  "$work/vh" replay "$(cd "$OLDPWD" && realpath "$VERIF_REPLAY")"
else
  "$work/vh" run "$id"
fi
exit $?
