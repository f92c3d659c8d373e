#!/bin/bash
# Builds the TLC operator overrides and the conformance driver.
set -e
cd "$(dirname "$0")"
mkdir -p java/build
(cd java && javac -cp /opt/veriftools/tla/tla2tools.jar -d build Prim.java)
. /opt/vp/env.sh
cd harness
cargo build --offline
