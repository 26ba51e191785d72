#!/bin/bash
# Nothing to prepare: every check builds what it needs from /repo.
cd "$(dirname "$0")" && mkdir -p build evidence replays && python3 -m py_compile check.py framework/registry.py && command -v g++ >/dev/null
