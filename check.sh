#!/bin/bash
# usage: check.sh <property-id> [--thorough]
cd "$(dirname "$0")" || exit 2
export LC_ALL=C.UTF-8
exec python3 engine/core.py "$@"
