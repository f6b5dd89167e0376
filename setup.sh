#!/bin/sh
# Nothing to build ahead: every check compiles its harness against the working tree.
cd "$(dirname "$0")" && mkdir -p build evidence replays && command -v g++ >/dev/null && command -v python3 >/dev/null
