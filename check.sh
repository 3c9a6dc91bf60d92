#!/bin/bash
# check.sh <property> [quick|thorough]: decides one property on /repo's current tree.
cd "$(dirname "$0")" || exit 2
tier=${2:-${VERIF_TIER:-quick}}
if [ ! -x bin/symgo ] || [ -n "$(find engine build.sh -newer bin/symgo -print -quit)" ]; then
	./build.sh || exit 2
fi
exec bin/symgo check -prop "$1" -tier "$tier"
