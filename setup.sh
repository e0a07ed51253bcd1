#!/bin/sh
# Nothing to install: verifies that the toolchain the checks use is present.
command -v java >/dev/null && test -f /opt/veriftools/tla/tla2tools.jar && /opt/vp/venv/bin/python -c 'import wasmtime' && command -v gcc >/dev/null
