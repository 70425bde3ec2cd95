#!/bin/sh
# Nothing to build: the specifications are run by TLC and the code under test is imported from /repo.
set -e
cd "$(dirname "$0")"
mkdir -p evidence out/replay
command -v tlc >/dev/null
/opt/venv/bin/python -c "import torch" 
