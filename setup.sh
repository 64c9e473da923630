#!/bin/bash
# Builds the harness and the command line tools once, and parses the specification.
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.dont_write_bytecode = True
from vf import core
core.build_harness()
core.build_cli()
core.build_shim()
P
for m in spec/*.tla; do
  ( cd spec && tla-sany "$(basename "$m")" > /tmp/sany.$$ 2>&1 ) || { cat /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
echo "setup done"
