#!/bin/bash
# nothing to build: checks that the installed tools the framework uses are there
set -e
cd "$(dirname "$0")"
command -v z3-new >/dev/null && command -v cvc5 >/dev/null
JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo /opt/venv/bin/python -c "import jax, magpi, engine.harness"
mkdir -p evidence
echo setup ok
