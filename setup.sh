#!/bin/sh
# Builds the harness once, which checks that everything needed is there and fills the build cache. The checks do not
# depend on it: each builds what it needs.
set -e
cd "$(dirname "$0")"
exec ./check.py --setup
