#!/bin/bash
# Builds the extractor and extracts /repo's current sources once; checks re-extract whatever changed since
# (the cache is keyed by the content of every source and header).
set -e
cd "$(dirname "$0")/.."
bash engine/build.sh
python3 -c "import sys; sys.path.insert(0, 'engine'); import ir; print(len(ir.load_cpp().funcs), 'functions')"
