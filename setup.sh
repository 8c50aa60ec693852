#!/bin/bash
# builds the harness once, so that the checks find compiled dependencies where they may be kept
cd "$(dirname "$0")" && . /opt/vp/env.sh >/dev/null 2>&1
cd /verif/harness || cd "$OLDPWD/harness" || exit 1
t=/repo/target; [ -w $t ] || t=/verif/target
cargo build --offline --target-dir $t 2>&1 | tail -1
