#!/usr/bin/env python3
"""Sanity of the tool chain: the solvers answer, and the pipeline reports a planted
counterexample (checks/selftest.py) and reproduces it natively."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = subprocess.run([sys.executable, os.path.join(V, "run.py"), "SELFTEST", "--jobs", "2", "--case", "."],
                   stdout=subprocess.PIPE, text=True, cwd=V)
print(r.stdout)
ok = r.returncode == 1 and r.stdout.count("VIOLATION property=SELFTEST") == 2 and "ERROR" not in r.stdout
print("selftest", "ok" if ok else "FAILED")
sys.exit(0 if ok else 1)
