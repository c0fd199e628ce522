#!/bin/bash
# builds the MIR dumper and warms the dependency check artefacts
cd "$(dirname "$0")" && exec python3 -B -c 'import sys; sys.path.insert(0, "."); from sfx import runner; runner.build_driver(); p, log = runner.dump(); print(p or log[-2000:])'
