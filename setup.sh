#!/bin/bash
# Nothing to build ahead of time: every check compiles what it needs from /repo's working tree.
cd "$(dirname "$0")" && mkdir -p evidence && /opt/venv/bin/python -c 'import numpy, sklearn' && gcc --version >/dev/null
