#!/bin/bash
# Builds the driver and the TLC overrides once.
set -e
cd /verif
python3 -c "import sys; sys.path.insert(0, 'tools'); import kit; kit.TARGET.mkdir(exist_ok=True); kit.java_overrides()"
bash tools/build.sh
