#!/bin/bash
H=$(cd "$(dirname "$0")" && pwd)
. "$H/lib.sh"
demo_build
demo_run 120 "$T/demo" "$T"
