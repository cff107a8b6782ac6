#!/bin/bash
# check.sh Cxx [engine flags]: decides one property for /repo's current tree.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/engine/env.sh"
prop="$1"; shift
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
(cd "$here/engine" && go build -buildvcs=false -o "$t/vengine" .) || exit 2
"$t/vengine" -prop "$prop" -verif "$here" "$@"
