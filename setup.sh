#!/bin/sh
# nothing has to be built in advance: every check compiles what it needs from /repo
cd "$(dirname "$0")" || exit 1
command -v cbmc goto-cc clang python3 >/dev/null || exit 1
mkdir -p evidence
exit 0
