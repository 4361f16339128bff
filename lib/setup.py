#!/usr/bin/env python3
"""Warm the build directories (optional: every check builds what it needs)."""
import os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.argv = ['check.py', 'setup']
import check
ok, err = check.build_native()
print('native contracts:', 'ok' if ok else err)
rc, o, e = check.kani_compile()
print('kani contracts:', 'ok' if rc == 0 else e[-2000:])
sys.exit(0 if ok else 1)
