#!/bin/bash
# Sanity of the framework: tools present, every specification parses.
cd "$(dirname "$0")" || exit 1
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
cd spec || exit 1
java -cp $CP tla2sany.SANY *.tla > /tmp/sany.$$ 2>&1
rc=$?
if [ $rc -ne 0 ] || grep -q "Fatal errors\|\*\*\* Errors\|Could not parse" /tmp/sany.$$; then tail -30 /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; fi
rm -f /tmp/sany.$$
/opt/venv/bin/python -B -c 'import dateutil, defusedxml' || exit 1
echo ready
