#!/bin/bash
# usage: check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 2
exec python3-vt -m nmpcv.run "$@"
