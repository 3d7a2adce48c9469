#!/bin/bash
# builds the conformance harness against /repo's working tree (offline)
set -e
cd "$(dirname "$0")"
mkdir -p evidence work
python3 check.py build
