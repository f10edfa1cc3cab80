#!/bin/bash
# Runs every registered check (development aid).
cd "$(dirname "$0")"
for p in ${*:-$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")}; do
  python3 check.py "$p" 2>&1
done
