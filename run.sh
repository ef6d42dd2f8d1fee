#!/bin/sh
# Decides one property (or several) for the current source of /repo.
cd "$(dirname "$0")" || exit 2
[ -x bin/ouroflow ] || sh setup.sh || exit 2
export GOPROXY=off
exec bin/ouroflow check "$@"
