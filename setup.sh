#!/bin/bash
# Nothing is built ahead of time: the specifications are interpreted by TLC and the code under test is Python.
# Check that the toolchain is there and that every specification parses.
cd "$(dirname "$0")/spec" || exit 1
export JARS=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
printf '%s\n' *.tla | xargs -P 4 -I{} sh -c 'java -cp $JARS tla2sany.SANY -error-codes {} >/dev/null 2>&1 || { echo "does not parse: {}"; exit 255; }' || exit 1
/opt/venv/bin/python -c 'import jschon' || exit 1
mkdir -p ../evidence
echo ok
