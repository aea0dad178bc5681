#!/bin/bash
# Builds the symbolic executor (offline, no dependencies but the Z3 library).
cd "$(dirname "$0")/engine" && cargo build --release --offline -q
