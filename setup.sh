#!/bin/bash
# Checks that the tools the checks need are there, and that all the specification modules parse.
set -e
cd "$(dirname "$0")/spec"
mkdir -p ../build ../evidence
JARS=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
for m in Trace_*.tla MC_*.tla; do
  [ -e "$m" ] || continue
  java -cp $JARS tla2sany.SANY "$m" > ../build/sany.log 2>&1 || { cat ../build/sany.log; exit 1; }
done
. /opt/vp/env.sh
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo $PY -W ignore -c "import whatami"
echo ready
