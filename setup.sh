#!/bin/bash
# Build everything once, so that the checks find a warm build cache.
cd "$(dirname "$0")" || exit 3
./build.sh && ./build.sh race
