#!/bin/bash
# usage: check.sh <property id> [quick|thorough]
cd "$(dirname "$0")" || exit 3
VDIR=$PWD
. /opt/vp/env.sh
cd "$VDIR" || exit 3
export PYTHONPATH=/repo:$VDIR
export XLA_FLAGS="--xla_force_host_platform_device_count=${VF_DEVICES:-8}"
export VERIF_TIER=${2:-${VERIF_TIER:-quick}} VERIF_SEED=${VERIF_SEED:-1}
export TEST_TMPDIR=${TMPDIR:-/tmp}
exec $PY -m vf.run "$1"
