#!/bin/bash
# offline build of the extractor and the harness (every check also does this itself)
cd "$(dirname "$0")"
(cd vx && cargo build --offline --release -q) && (cd harness && cargo build --offline --release -q)
