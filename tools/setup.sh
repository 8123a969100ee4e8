#!/bin/bash
# Prebuilds the executor, the replay program and the dependencies of the harness crates into /verif/build.
cd "$(dirname "$0")/.." && exec python3 tools/build.py
