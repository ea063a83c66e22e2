#!/bin/bash
# Builds the IR dumper and the declaration dumper from the committed source (offline, needs only the installed LLVM 18 development files).
cd "$(dirname "$0")" || exit 2
exec python3 -c "import sys; sys.path.insert(0,'engine'); import build; print(build.tool(), build.tool('hdrdump'))"
