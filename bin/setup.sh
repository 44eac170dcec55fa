#!/bin/bash
# Build the extractor and warm the dependency cache of the checks (checks also do this on demand).
cd "$(dirname "$0")/.." || exit 1
python3 - <<'P'
import sys; sys.path.insert(0, 'sa')
import run
d, rc, log = run.get_facts()
print('facts', d, rc); print(log[-1000:])
sys.exit(0 if rc in (0, 2, 4) else 1)
P
