#!/bin/bash
# run.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" && exec python3 run.py "$@"
