#!/bin/sh
# usage: check.sh P01   -- runs one check (static analysis of /repo's current sources)
d=$(CDPATH= cd -- "$(dirname -- "$0")" && pwd)
p=$(echo "$1" | tr 'A-Z' 'a-z')
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$d/engine" exec /usr/bin/python3 "$d/checks/$p.py"
