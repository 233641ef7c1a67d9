#!/bin/sh
# builds the file I/O seam; checks rebuild it on demand as well
cd "$(dirname "$0")" && /opt/venv/bin/python -c "
import sys; sys.path.insert(0, '.')
from sim import boot
print(boot.build_seam())"
