#!/bin/bash
# mkdemo.sh ID MAIN.rs: lays out seeded/ID with the demonstration kit and the given scenario.
set -e
K=/verif/tools/demo; S=/verif/seeded/$1
mkdir -p $S/crate/src
cp $K/Cargo.toml $K/Cargo.lock $S/crate/
cp $K/src/world.rs $K/src/asm.rs $K/src/kit.rs $S/crate/src/
[ -n "$2" ] && cp "$2" $S/crate/src/main.rs
cp $K/demo.sh $S/demo.sh; chmod +x $S/demo.sh
