#!/bin/bash
# Nothing has to be prepared: every check builds what it needs from /repo.  This only checks the tools are there.
set -e
cd "$(dirname "$0")"
command -v cargo gcc python3-vt z3 >/dev/null
python3-vt -c 'import z3; import vcir.spec'
