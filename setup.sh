#!/bin/bash
# Nothing to build: the checks import phenum from /repo's working tree.  Make
# sure that the interpreter and the libraries are there.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 python -c "
import sys; sys.path.insert(0, 'lib')
import harness, gen, cli, enumcheck, hypothesis, numpy, phenum
print('hypothesis', hypothesis.__version__, 'numpy', numpy.__version__, phenum.__file__)"
