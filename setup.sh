#!/bin/bash
# nothing has to be built ahead: every check compiles its harness from /repo's current tree. Verify the tools are there.
cd "$(dirname "$0")"
set -e
for t in clang++ g++ python3-vt /usr/lib/llvm-18/bin/opt /usr/lib/llvm-18/bin/llvm-cxxfilt; do command -v "$t" >/dev/null || { echo "missing $t"; exit 1; }; done
python3-vt -c 'import z3, cvc5; print("z3", z3.get_version_string(), "cvc5", cvc5.__version__)'
chmod +x check replay.sh
