#!/bin/bash
# checks that the tools are there: parses the specifications and builds the harness once (into a temporary directory)
cd "$(dirname "$0")/../spec" || exit 1
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
  rm -f /tmp/sany.$$
done
cd ../bin && python3 -c '
import sys; sys.dont_write_bytecode = True
import engine
e = engine.Engine()
try: e.build()
finally: e.close()
'
