#!/bin/bash
# Builds every harness once, so that the checks only rebuild what changed in /repo.
cd "$(dirname "$0")" || exit 2
python3 - <<'P'
import sys
sys.path.insert(0, '.')
sys.argv = ['check.py']
import check
pk = sorted({s['package'] for s in check.PROPS.values() if s['engine'] == 'rust'})
bad = 0
for p in pk:
    e = check.build([p])
    if e:
        bad = 1
        print(f'{p} does not build:\n{e}')
sys.exit(bad)
P
