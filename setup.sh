#!/bin/bash
# Checks build what they need themselves; this only makes sure the tools are there.
cd "$(dirname "$0")" && mkdir -p work evidence && java -version 2>&1 | head -1 && cargo --version && test -f /opt/veriftools/tla/tla2tools.jar
