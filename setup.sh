#!/bin/bash
# builds the facts driver and the dependencies' metadata the checks need (offline)
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.path.insert(0, '.')
from rules import common
common.extract()
from rules import witness
for _, _, args in witness.subsets():
    witness.build_lib(witness.gates_target(), args)
P
