#!/bin/bash
# Nothing is built ahead: every check re-encodes /repo's source when it runs.  This only verifies that the tools are there.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
/opt/venv/bin/python -c "
import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3; s=z3.Solver(); x=z3.Int('x'); s.add(x>3); assert s.check()==z3.sat; print('z3', z3.get_version_string())"
