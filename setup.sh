#!/bin/bash
# Nothing to build: the checks run from the sources. Makes sure that the tools are there.
cd "$(dirname "$0")" || exit 1
java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -h > /dev/null 2>&1
test -x /opt/venv/bin/python && test -f /opt/veriftools/tla/tla2tools.jar && test -f /opt/veriftools/tla/CommunityModules-deps.jar
