#!/bin/bash
# Builds the compiled matching backend from /repo's source (checks rebuild it when the source changes).
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
PYTHONPATH=${FLAMINGPY_REPO:-/repo}:$PWD PYTHONDONTWRITEBYTECODE=1 ${PY:-/opt/venv/bin/python} -c "from mc.lib import build_lemon; print(build_lemon())"
