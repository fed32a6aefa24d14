#!/bin/sh
# Nothing to install: every check builds what it needs from /repo's tree.
# This only confirms that the tools are there.
set -e
cd "$(dirname "$0")/.."
command -v gcc make python3-vt >/dev/null
python3-vt -c 'import hypothesis, vp.proto, vp.engine'
mkdir -p evidence
