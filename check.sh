#!/bin/bash
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
exec python3-vt check.py "$1" --tier "${2:-quick}"
