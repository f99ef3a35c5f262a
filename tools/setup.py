"""setup: only checks that the tools the checks need are there"""
import shutil, sys
import z3
bad = [t for t in ('clang++', 'g++', 'c++filt') if not shutil.which(t)]
if bad: print('missing', bad)
sys.exit(1 if bad else 0)
