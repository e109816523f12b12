#!/bin/sh
# Build the symbolic executor, the IR and the replay program once (each check rebuilds what changed).
cd "$(dirname "$0")" && exec python3 -m driver.build
