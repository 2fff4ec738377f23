#!/bin/sh
# The checks build everything they need themselves; this only verifies that the tools are there.
set -e
cd "$(dirname "$0")"
python3 -c 'import lib, props'
cargo --version && cargo +nightly --version && clang --version | head -1 && gcc --version | head -1 && valgrind --version
