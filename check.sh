#!/bin/bash
# check.sh <property id> [quick|thorough]
cd "$(dirname "$0")" || exit 2
[ -n "$2" ] && export VERIF_TIER="$2"
exec python3-vt -m vf.main "$1"
