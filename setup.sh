#!/bin/bash
# Checks the tools and warms the Go build cache; every check builds what it needs itself.
set -e
cd "$(dirname "$0")"
java -version 2>/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
python3 - <<'P'
import sys
sys.path.insert(0, 'lib')
import vlib
ck = vlib.Check('setup', 'quick', 1)
try:
    ck.build()
finally:
    ck.close()
print('setup ok')
P
