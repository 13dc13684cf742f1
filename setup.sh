#!/bin/sh
# builds the framework offline: compiles the real crates to LLVM IR once (every check rebuilds them)
set -e
cd "$(dirname "$0")"
mkdir -p evidence
exec ./setup.py
