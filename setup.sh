#!/bin/bash
# Nothing to build: the checks are Python and run on the interpreter of the repository.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
/opt/venv/bin/python -B -c "import json, sys; json.load(open('MANIFEST.json')); import numpy" && echo ready
