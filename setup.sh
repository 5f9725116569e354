#!/bin/bash
# Nothing to install; builds once so that the Go build cache is warm.
cd "$(dirname "$0")" && mkdir -p evidence replays && ./run.sh C01 quick -n 8 >/dev/null 2>&1; exit 0
