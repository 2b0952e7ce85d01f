#!/bin/sh
# ./check.sh Cxx: decides one property on /repo's current working tree.
cd "$(dirname "$0")" || exit 2
[ -x bin/gosym ] || ./setup.sh >&2 || exit 2
exec bin/gosym check "$1"
