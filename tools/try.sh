#!/bin/bash
# usage: try.sh <seeded id> [check ...]: runs checks against a planted bug, without its demonstration and tests.
SKIPDEMO=1 bash "$(dirname "$0")/try_bug.sh" "$@"
