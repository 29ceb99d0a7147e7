#!/bin/bash
# check.sh <PROPERTY>: decide one property on /repo's current tree
cd "$(dirname "$0")" && exec python3-vt -m engine.check "$1"
