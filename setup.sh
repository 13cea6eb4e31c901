#!/bin/bash
# Builds every harness once (each check rebuilds whatever changed since).
cd "$(dirname "$0")" || exit 1
python3 check.py --build-only
