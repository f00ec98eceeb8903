#!/bin/bash
# nothing has to be built: the code under test is imported from /repo and the
# specifications are read by TLC.  Check that the tools are there.
cd "$(dirname "$0")"
mkdir -p evidence
command -v java >/dev/null && test -f /opt/veriftools/tla/tla2tools.jar && test -x /opt/venv/bin/python
