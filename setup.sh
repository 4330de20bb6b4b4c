#!/bin/bash
# Nothing is compiled: checks the machinery itself (interpreter, explorer self-test), and compares the virtual
# machine with this kernel (which only reports: the checks do not depend on the outcome).
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8
/opt/venv/bin/python -B -m mc.selftest || exit 1
timeout 300 /opt/venv/bin/python -B -m mc.conformance 4 || echo 'the virtual machine differs from this kernel'
exit 0
