#!/bin/bash
# regenerate what is derived
cd "$(dirname "$0")/.." && python3 tools/gen.py && python3 tools/findings.py && python3 tools/design.py
