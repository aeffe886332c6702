#!/bin/bash
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" && exec python3 bin/check.py "$@"
