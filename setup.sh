#!/bin/bash
# nothing to build: parse the specification and check that the tools answer
set -e
cd "$(dirname "$0")"
mkdir -p evidence
for m in spec/Trace.tla spec/MC*.tla; do
    (cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar \
        tla2sany.SANY "$(basename "$m")" > /tmp/sany.$$ 2>&1) || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
    rm -f /tmp/sany.$$
done
/opt/venv/bin/python -c 'import numpy, scipy, unum'
