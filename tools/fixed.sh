#!/bin/sh
# fixed.sh <property> <text>: records the last commit of /repo as a repair
echo "fixed: property=$1 $(git -C /repo rev-parse --short HEAD) $2" >> "$(dirname "$0")/../known_findings.txt"
