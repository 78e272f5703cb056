#!/bin/bash
# Nothing to install: check that the tools the checks need are there, and that
# the specification parses.
set -eu
cd "$(dirname "$0")"
command -v java cmake ninja g++ >/dev/null
/usr/bin/python3 -c 'import numpy, scipy, sympy'
cp=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
cd spec
for f in *.tla; do
    java -cp "$cp" tla2sany.SANY "$f" > /tmp/verif-sany.$$ 2>&1 || { cat /tmp/verif-sany.$$; exit 1; }
done
rm -f /tmp/verif-sany.$$
echo "specification parses"
