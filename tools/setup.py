"""setup: checks that the tools are there (everything else is built by the checks from /repo's current tree)"""
import shutil, sys
for t in ('clang++-18', 'g++', 'cvc5', 'z3-new', '/usr/lib/llvm-18/bin/opt'):
    if not shutil.which(t): print('missing', t); sys.exit(1)
import z3, numpy
print('ok', z3.get_version_string())
