#!/bin/bash
# builds every harness crate once (each check builds again what it needs)
cd "$(dirname "$0")"
for c in h_*; do ./build.sh "$c" || exit 1; done
