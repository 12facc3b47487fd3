"""Builds the IR serialiser and checks the tools the verifier needs."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run
print(run.irdump())
for c in (['clang++-18', '--version'], [run.LLVM + '/opt', '--version'], ['cvc5', '--version']):
    run.sh(c)
import z3
print('z3', z3.get_version_string())
