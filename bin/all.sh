#!/bin/bash
# runs checks one after another (all, or those given) and prints their last lines
cd "$(dirname "$0")/.."
for c in ${*:-$(python3 -c 'import sys; sys.path.insert(0,"bin"); sys.dont_write_bytecode=True; import checks; print(*checks.C)')}; do
  python3 bin/check.py $c > /tmp/check.$c.log 2>&1; r=$?
  echo "exit $r $(tail -1 /tmp/check.$c.log)"
  grep -h "^  \|KNOWN-FINDING\|Error\|no answer" /tmp/check.$c.log | cut -c1-400 | head -8
done
