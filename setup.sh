#!/bin/bash
# Warms the build cache; every check builds what it needs anyway.
cd "$(dirname "$0")" && python3 run.py --build
