#!/bin/bash
# Builds the framework offline: the harness against /repo, the Java operators.
set -e
cd "$(dirname "$0")"
python3 -c 'from vlib import tool; tool.build_harness(); tool.build_harness(std=False); tool.classes()'
