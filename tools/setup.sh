#!/bin/bash
# builds the real-arithmetic overrides for TLC and parses the specifications
set -e
cd "$(dirname "$0")/.."
/opt/venv/bin/python -c "
import sys; sys.path.insert(0, 'harness'); sys.dont_write_bytecode = True
import tlc; tlc.build()"
