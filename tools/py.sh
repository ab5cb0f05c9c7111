#!/bin/bash
cd /verif; PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=${PYVC_REPO:-/repo}:/opt/veriftools/pyvenv/lib/python3.12/site-packages:/verif exec /opt/venv/bin/python "$@"
