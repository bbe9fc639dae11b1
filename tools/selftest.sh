#!/bin/bash
# tests of the verifier itself
cd "$(dirname "$0")/.." && /opt/venv/bin/python tools/selftest.py models && python3 tools/selftest.py mutants
