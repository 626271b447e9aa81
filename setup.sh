#!/bin/bash
# Nothing to compile: check that the simulator imports and the code under test loads.
cd "$(dirname "$0")" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD /opt/venv/bin/python -W ignore -c "import sim.driver"
