#!/bin/bash
# run.sh <property>: analyses /repo's current source for one property.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
if [ ! -x "$here/bin/analyzer" ] || [ -n "$(find "$here/analyzer" -maxdepth 1 -name '*.go' -newer "$here/bin/analyzer" -print -quit)" ]; then
	bash "$here/setup.sh" || exit 2
fi
"$here/bin/analyzer" -repo /repo -verif "$here" "$1"
