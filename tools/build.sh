#!/bin/bash
# build.sh [TARGET [SUITE full|subset]]: builds the conformance driver from the current /repo tree into TARGET
# (default /verif/target); with SUITE, only what that suite needs (see reduced.py).
. /opt/vp/subset-gen/env.sh
export CARGO_TARGET_DIR=${1:-/verif/target}
export SYNEDRION_VERIF_DIR=/verif/driver RUSTFLAGS="--cfg synedrion_verif -Awarnings"
H=/verif/harness
if [ -n "$2" ]; then
  O=/verif/work/reduced/$2-$3
  python3 /verif/tools/reduced.py $2 $O $3 || exit 1
  export SYNEDRION_VERIF_DIR=$O/driver
  [ "$3" = subset ] && H=$O/harness
fi
cd $H && exec cargo build --offline
