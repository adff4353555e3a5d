#!/bin/bash
# Nothing to build: the checks import /repo's working tree. Verify the tools are there.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
python3-vt -c 'import hypothesis, sys; print("hypothesis", hypothesis.__version__)' || exit 1
/opt/venv/bin/python -c 'import numpy, sys; print(sys.version.split()[0], "numpy", numpy.__version__)' || exit 1
