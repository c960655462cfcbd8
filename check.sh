#!/bin/bash
# check.sh ID [thorough]: decide one property against /repo's working tree.
# Exit 0: held; 1: violated (VIOLATION line); anything else: the check failed.
cd "$(dirname "$0")" || exit 3
mkdir -p .build
case "$1" in
C28) bin=.build/verif-race; mode=race ;;
*) bin=.build/verif; mode= ;;
esac
if ! ./build.sh $mode >.build/log 2>&1; then
	cat .build/log >&2
	rm -f .build/log
	echo "check $1: build failed" >&2
	exit 3
fi
rm -f .build/log
[ "$2" = thorough ] && export VERIF_TIER=thorough
exec "$bin" check "$1"
