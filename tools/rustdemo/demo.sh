#!/bin/bash
# builds the affected modules of the Rust backend without cargo (its dependencies are not available) and runs main.rs
d=$(cd "$(dirname "$0")" && pwd)
o=$(mktemp -d) || exit 2
trap 'rm -rf -- "$o"' EXIT
/opt/venv/bin/python -B "$d/build.py" "$o" || exit 2
"$o/demo"
