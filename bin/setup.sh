#!/bin/bash
# nothing to build ahead: the drivers are compiled from /repo by each check.
# Parse every specification once so that a broken checkout fails early.
cd "$(dirname "$0")/../spec" || exit 1
mkdir -p ../evidence
for f in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" >/dev/null 2>&1 || { echo "cannot parse $f"; exit 1; }
done
echo "specifications parse"
