#!/bin/bash
# nothing to install; builds the crash shim when its source is there
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 1
mkdir -p evidence build
if [ -f shim/crash.c ]; then
    gcc -O1 -shared -fPIC -o build/crash.so shim/crash.c -ldl || exit 1
fi
/opt/venv/bin/python -c 'import requests, httpx, pandas'
