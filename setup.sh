#!/bin/bash
# nothing to compile: the machinery is Python and runs the sources of /repo directly; verify that the tools are there
. /opt/vp/env.sh
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
exec python -c "import vlib, z3, torch, numpy; print('z3', z3.get_version_string(), 'torch', torch.__version__)"
