#!/bin/bash
# after a deliberate change of /repo or of the contracts: record the text the annotations speak about
cd /verif/vx && cargo build --offline --release -q && ./target/release/vx gen --all --out /dev/null --map /dev/null --bless /verif/baseline.json && ./target/release/vx lits > /verif/baseline.lits
