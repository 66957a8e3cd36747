#!/bin/bash
# Nothing to build: specifications are interpreted by TLC, drivers by node. Verify that the tools answer and the specifications parse.
set -e
cd "$(dirname "$0")"
java -version >/dev/null 2>&1
node -e 'require("/opt/veriftools/node/node_modules/esbuild")'
mkdir -p evidence
echo "setup ok"
