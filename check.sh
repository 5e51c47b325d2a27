#!/bin/bash
# usage: check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 2
bash setup.sh >/dev/null 2>&1
exec ./bin/svc check "$1" "${2:-quick}"
