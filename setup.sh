#!/bin/sh
# Build the two analysers (checks build them themselves when they are missing).
cd "$(dirname "$0")" && exec python3 -B -c 'import sys; sys.path.insert(0,"lib"); import extract; extract.tool("irx"); extract.tool("pz")'
