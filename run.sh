#!/bin/bash
# run.sh <property id> [--replay FILE]      (VERIF_TIER=quick|thorough, VERIF_SEED=n)
# Runs one check against the working tree in /repo (or $VP_REPO, for experiments on copies).
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
id="${1:?usage: run.sh ID [--replay FILE]}"; shift
cd "$here" || exit 2
preload=
if [ "${id^^}" = C08 ]; then
    [ build/crash.so -nt shim/crash.c ] || bash setup.sh || exit 2
    preload="$here/build/crash.so"
fi
exec env -i ${preload:+LD_PRELOAD="$preload"} PATH=/usr/local/bin:/usr/bin:/bin LANG=C.UTF-8 HOME=/nonexistent \
    VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}" VP_REPO="${VP_REPO:-/repo}" \
    VP_JOBS="${VP_JOBS:-}" VP_EVIDENCE="${VP_EVIDENCE:-$here/evidence}" VP_DEBUG="${VP_DEBUG:-}" \
    VP_STRIDE="${VP_STRIDE:-}" VP_CASE_TIMEOUT="${VP_CASE_TIMEOUT:-}" \
    PYTHONPATH="${VP_REPO:-/repo}:$here" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 \
    /opt/venv/bin/python -B -m mc "$id" "$@"
