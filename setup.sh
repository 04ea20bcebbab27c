#!/bin/bash
# builds the MIR exporter and type-checks the dependencies once
cd "$(dirname "$0")" && python3 - <<'P'
import sys; sys.path.insert(0, 'engine')
import common, os
p = common.dump(); os.remove(p)
P
