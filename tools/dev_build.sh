#!/bin/bash
# dev helper: instrument + build
cd /verif && python3 tools/instrument.py /repo build/inst ../../vrt && cd harness && CARGO_TARGET_DIR=/verif/build/target cargo build --release --offline 2>&1 | grep -E "^error" -A12 | head -60
