#!/bin/bash
# exit 0: the property held in this scenario; non-zero: it was broken
exec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
