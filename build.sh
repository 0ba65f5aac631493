#!/bin/bash
# Builds the harness, and with "all" or "py" first the Python module, against /repo's current working tree.
source /opt/vp/env.sh
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS
if [ "$1" = py ] || [ "$1" = all ]; then
  shift
  (cd /repo && CARGO_TARGET_DIR=/verif/target/py CARGO_INCREMENTAL=1 cargo build --release --offline --locked -p egobox --lib) || exit 1
  P=/verif/target/py/pkg/egobox
  mkdir -p $P && ln -sfn /verif/target/py/release/libegobox.so $P/egobox.so && ln -sfn /repo/python/egobox/__init__.py $P/__init__.py || exit 1
fi
export CARGO_TARGET_DIR=/verif/target
cd /verif/harness && cargo build --release --offline --locked "$@"
