#!/bin/bash
# Nothing is built ahead of time: each check compiles what it needs from /repo.
cd "$(dirname "$0")" && mkdir -p evidence build
command -v gcc >/dev/null && command -v java >/dev/null && /opt/venv/bin/python -c "import migen, litex, numpy" && echo "setup ok"
