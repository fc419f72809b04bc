#!/bin/bash
# check.sh PROPERTY [--replay FILE]
# Exit 0: the property held. Exit 1: VIOLATION line. Anything else: error.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?property}
shift

# C16 is a claim about builds with and without overflow checks.
profiles="checked"
[ "$id" = C16 ] && profiles="checked release"

mkdir -p "$here/evidence"
rm -f -- "$here/evidence/$id.json"
bash "$here/build.sh" $profiles || exit 2

second=()
for profile in $profiles; do
    "$here/target/$profile/trie-checks" "$id" --root "$here" "${second[@]}" "$@"
    code=$?
    [ $code -eq 0 ] || exit $code
    second=(--second-build release)
done
