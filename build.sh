#!/bin/bash
# Builds the harness from /repo's working tree (see build.py).
exec python3 "$(dirname "$0")/build.py"
