#!/bin/bash
# compiles the TLC operator overrides (java/src) into build/classes
cd "$(dirname "$0")/.." && exec python3 -c "import run; print(run.classes())"
