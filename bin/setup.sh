#!/bin/bash
# Warms the build cache by building the harness once; the checks rebuild what they need.
cd "$(dirname "$0")/.." || exit 1
export HOME=${HOME:-/root}
for p in C01; do
  bin/check.py "$p" build || exit 1
done
exit 0
