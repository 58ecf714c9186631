#!/bin/bash
# Nothing to build ahead: every check translates /repo/tracer afresh. Only verify the tools exist.
test -x /usr/bin/python3 && test -x /opt/venvpp/bin/python && test -f /opt/vp/py3/translate.py || { echo "missing interpreter or translator" >&2; exit 1; }
mkdir -p "$(dirname "$0")/../evidence" "$(dirname "$0")/../replays"
exit 0
