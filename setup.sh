#!/bin/bash
# Nothing has to be built: the specifications are parsed and the tools found.
set -e
cd "$(dirname "$0")/spec"
for m in Larch LarchViews ViewsMC LarchWidget WidgetMC LarchTrace LarchMC LarchQ Arrival SyncQueue QueueTrace; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar \
    tla2sany.SANY $m.tla > /dev/null || { echo "cannot parse $m"; exit 1; }
done
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import sys; sys.path.insert(0, "/repo"); import liblarch, liblarch_gtk.treemodel'
echo ready
