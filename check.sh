#!/bin/bash
# check.sh ID quick|thorough        explores property ID on /repo's current tree
# check.sh ID replay PATH           replays a recorded violation
set -u
export VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
export VERIF_BUILD=${VERIF_BUILD:-$VERIF_DIR/build} VERIF_T0=$(date +%s.%N) VERIF_SEED=${VERIF_SEED:-1}
export R_LIBS= R_LIBS_USER=NULL R_ENVIRON_USER= R_PROFILE_USER= LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
bash "$VERIF_DIR/lib/build.sh" || { echo "the package does not build"; exit 3; }
[ "$2" = replay ] && export VERIF_REPLAY=$3
export VERIF_TIER=$2
exec Rscript --vanilla "$VERIF_DIR/checks/$1.R" 
