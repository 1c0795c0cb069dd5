#!/bin/sh
# everything is interpreted; check that the tools are there
set -e
cd "$(dirname "$0")"
mkdir -p out evidence
/opt/venv/bin/python -c 'import cocotb, cocotbext.axi'
iverilog -V >/dev/null
