#!/bin/bash
# Checks that everything builds offline. Every check builds again from the
# current tree, so nothing is kept for them here.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh >/dev/null 2>&1
cd "$here" && go version && test -d /repo && test -x check.sh
