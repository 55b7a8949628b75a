#!/bin/bash
# Nothing to build: the checks run the Python sources of /repo directly.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -c "import json; json.load(open('MANIFEST.json'))"
