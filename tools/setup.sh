#!/bin/sh
# Nothing has to be built beforehand: every check extracts, proves and builds by itself.
set -e
cd "$(dirname "$0")/.."
verus --version
python3 -c "import json; json.load(open('MANIFEST.json'))"
