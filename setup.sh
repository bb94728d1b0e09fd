#!/bin/bash
# Nothing is kept between runs: each check builds what it needs in a scratch
# directory.  Here only see that the tools are there.
cd "$(dirname "$0")" || exit 1
set -e
/opt/venv/bin/python -c 'import numpy, py65, greenlet'
command -v gcc ca65 cl65 make >/dev/null
