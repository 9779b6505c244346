#!/bin/sh
# every module of spec/ parses (run after editing a shared module)
cd "$(dirname "$0")/../spec" || exit 2
bad=0
for f in *.tla; do tla-sany "$f" 2>&1 | grep -qi "error" && { echo "does not parse: $f"; bad=1; }; done
exit $bad
