#!/bin/bash
# exit 0 when the property holds on the tree in /repo
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
exec /opt/pypyvenv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
