#!/bin/bash
# Builds the conformance driver once, so that the checks only rebuild what changed.
set -e
cd "$(dirname "$0")"
python3 -c "import common; common.build()"
