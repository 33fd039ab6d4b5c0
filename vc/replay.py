#!/usr/local/bin/python3-vt
"""replay.py <property> <case...>: runs a recorded failing input against the compiled code"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run, registry
exe, err = run.build_oracle(registry.PROPS[sys.argv[1]]['oracle'])
if not exe: print(err); sys.exit(2)
try: c, t = run.oracle(exe, ['replay', sys.argv[1]] + sys.argv[2:], 120)
finally: os.remove(exe)
print(t); sys.exit(1 if c else 0)
