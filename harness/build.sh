#!/bin/bash
# build.sh CRATE : builds one harness crate from /repo's working tree (debug), reusing the dependencies that
# /opt/vp/build.sh has compiled when they are there
cd "$(dirname "$0")"; . ./env.sh
export CARGO_TARGET_DIR=${VP_TARGET:-/verif/.build/target}
if [ ! -d "$CARGO_TARGET_DIR" ]; then
  mkdir -p "$(dirname "$CARGO_TARGET_DIR")"
  if [ -d /opt/vp/ws/target ]; then cp -a /opt/vp/ws/target "$CARGO_TARGET_DIR"; fi
fi
exec cargo build -p "$1" --offline
