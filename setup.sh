#!/bin/bash
# Parse every specification; nothing is built ahead of the checks.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import sys; from vf import core; sys.exit(core.sany_all())"
