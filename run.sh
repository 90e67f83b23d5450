#!/bin/bash
# run.sh <property>: decide one property on /repo's current source.
cd "$(dirname "$0")" || exit 2
export GOTOOLCHAIN=local GOPROXY=off
[ -x bin/checker ] || bash setup.sh || exit 2
exec bin/checker "$1"
