#!/bin/bash
# v.sh c01 [verus args]: extract and verify one contract file
unset RUSTUP_TOOLCHAIN
mkdir -p /tmp/o
/verif/target/vx/debug/vx ${REPO:-/repo} /verif/specs/$1.rs /tmp/o/$1.rs /tmp/o/$1.map || exit 2
s=$1; shift
verus /tmp/o/$s.rs --num-threads 8 --rlimit 60 "$@" 2>&1 | grep -v -e "^note: recommendation not met" | grep -E -A14 "^error|verification results|panicked" | head -${LINES_MAX:-80}
