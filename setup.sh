#!/bin/bash
# Nothing is installed and nothing persists: every check builds its monitors from /repo's working tree.
set -e
cd "$(dirname "$0")"
command -v g++ >/dev/null
python3 -c "import json"
mkdir -p evidence
