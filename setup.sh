#!/bin/sh
# Checks that what the checks need is there, and that every specification parses.
cd "$(dirname "$0")" || exit 1
set -e
mkdir -p evidence
/opt/venv/bin/python -c "import numpy, xarray, netCDF4, cftime"
JARS=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
cd spec
for m in *.tla; do
    java -cp $JARS tla2sany.SANY "$m" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
echo setup done
