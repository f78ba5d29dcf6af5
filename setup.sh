#!/bin/bash
# Build the compiled extensions of /repo's working tree; the framework itself
# is plain Python and needs no build.
cd "$(dirname "$0")" || exit 2
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "build failed"; exit 2; }
exec /opt/venv/bin/python -c "import sim.run; print('ready')"
