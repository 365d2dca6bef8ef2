#!/bin/bash
exec timeout 250 env PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python "$(dirname "$0")/demo.py"
