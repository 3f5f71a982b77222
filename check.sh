#!/bin/bash
# check.sh <property> <quick|thorough>
cd "$(dirname "$0")" && exec python3-vt -O -m vc.run "$1" "$2"
