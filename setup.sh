#!/bin/sh
# Nothing needs building: the checks import /repo directly. Verify that the interpreter is usable.
cd "$(dirname "$0")" || exit 1
exec ./check --selftest
