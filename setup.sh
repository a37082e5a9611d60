#!/bin/bash
# nothing to build: checks that the toolchain is there and the modules parse
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python - <<'P' || exit 1
import os, sys
sys.path.insert(0, 'lib'); sys.dont_write_bytecode = True
import tlc
r = tlc.run('Conformance', env={'CASES': os.path.abspath('setup/one.ndjson')}, timeout=300)
print(r.output[-300:])
sys.exit(0 if r.completed and r.distinct == 257 else 1)
P
