#!/bin/bash
# Builds the harness once, so that problems show up early. Every check builds what it needs itself.
set -e
. /opt/vp/env.sh
(cd /verif/harness && cargo build --offline -q)
(cd /verif/rt && cargo build --offline -q)
