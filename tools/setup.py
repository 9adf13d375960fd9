#!/usr/bin/env python3
"""Nothing to build ahead of time: checks that the tools the engine needs are there."""
import os, shutil, sys
import z3
ok = all(os.path.exists('/usr/lib/llvm-18/bin/' + t) for t in ('clang++', 'opt', 'llvm-cxxfilt')) and shutil.which('g++') and shutil.which('cvc5')
print('tools present' if ok else 'a tool is missing'); sys.exit(0 if ok else 1)
