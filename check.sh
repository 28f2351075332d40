#!/bin/bash
# check.sh P05 [quick|thorough] – decides one property; see DESIGN.md
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /usr/bin/python3 -m pbt.run "$1" --tier "${2:-quick}"
