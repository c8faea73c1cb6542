#!/bin/bash
# usage: run.sh Cxx [args]   -- run one check against /repo's working tree
cd "$(dirname "$0")" || exit 3
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin LANG=C.UTF-8
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$PWD:${VERIF_REPO:-/repo}"
export HYPOTHESIS_STORAGE_DIRECTORY=/tmp/verif_hyp_$$ MPLBACKEND=Agg
id=$(echo "$1" | tr 'A-Z' 'a-z'); shift
/opt/venv/bin/python -W ignore -m "checks.$id" "$@"
rc=$?
rm -rf "/tmp/verif_hyp_$$"
exit $rc
