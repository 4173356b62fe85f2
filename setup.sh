#!/bin/bash
# Builds the harness once (each check rebuilds what changed).
ROOT=$(cd "$(dirname "$0")" && pwd)
. "$ROOT/tools/env.sh"
bash "$ROOT/tools/build.sh"
