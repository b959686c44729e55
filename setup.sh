#!/bin/bash
# Nothing to build: the framework is Python and hypothesis is vendored. Only checks that it imports.
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python -c "from vf import env; env.setup_path(); import hypothesis, vf.run; print('hypothesis', hypothesis.__version__)"
