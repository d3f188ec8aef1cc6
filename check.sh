#!/bin/bash
# check.sh <property> <quick|thorough> [--replay FILE]
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
exec node --no-warnings sim/check.mjs "$@"
