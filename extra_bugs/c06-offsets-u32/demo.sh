#!/bin/sh
# exit 0 if the property holds; run with the repository as working directory
exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
