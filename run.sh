#!/bin/bash
# usage: run.sh <property id> [quick|thorough] [--part NAME] [--replay FILE]
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 TZ=UTC LC_ALL=C.UTF-8
cd "$here" || exit 2
exec /opt/venv/bin/python -c '
import sys
sys.path.insert(0, sys.argv[1])
from lib import harness
rc = 2
try:
    rc = harness.main(sys.argv[2:])
except SystemExit:
    raise
except BaseException:
    import traceback
    traceback.print_exc()
    rc = 2
sys.stdout.flush()
sys.exit(rc)
' "$here" "$@"
