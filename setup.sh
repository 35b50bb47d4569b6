#!/bin/bash
# Warms the build cache (/verif/.build, ignored by git).  Every check rebuilds what it needs when run cold.
cd "$(dirname "$0")" || exit 1
python3-vt mirvc/extract.py || exit 1
exit 0
