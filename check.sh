#!/bin/bash
# Usage: check.sh PROPERTY [bhsim options]. Rebuilds from /repo's working tree, then searches.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
prop=$1; shift
tier=${VERIF_TIER:-quick}; seed=${VERIF_SEED:-1}
python3 build.py || { echo "ERROR: build failed"; exit 2; }
mkdir -p evidence replays
if [ "$tier" = thorough ]; then set -- --runs 4000000 --cap "${VERIF_CAP:-600}" "$@"; else set -- --runs 40000 --cap "${VERIF_CAP:-30}" "$@"; fi
exec "${BHSIM_BUILD:-build}/bhsim" check --prop "$prop" --tier "$tier" --seed "$seed" --jobs "$(nproc)" --verif "${BHSIM_OUT:-.}" "$@"
