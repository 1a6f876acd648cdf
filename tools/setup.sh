#!/bin/bash
# Everything needed is already installed; only check that the code imports.
set -e
cd "$(dirname "$0")/.."
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/src /opt/venv/bin/python -c "import auv_nav.process, auv_nav.parse" >/dev/null
mkdir -p evidence
