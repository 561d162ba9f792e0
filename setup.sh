#!/bin/bash
# offline build of what the checks need: the preload library that puts file I/O under the simulator
set -e
cd "$(dirname "$0")"
mkdir -p build replays evidence
if [ -f shim/fsshim.c ]; then
  gcc -O2 -Wall -Wno-unused -shared -fPIC -o build/fsshim.so.tmp shim/fsshim.c -ldl
  mv build/fsshim.so.tmp build/fsshim.so
fi
echo ready
