#!/usr/bin/env python3
"""Nothing to build: checks that the interpreters and libraries the checks need are present."""
import subprocess, sys
ok = subprocess.call(["python3-vt", "-c", "import z3, sympy"]) == 0
ok &= subprocess.call(["/opt/venv/bin/python", "-W", "ignore", "-c", "import sys; sys.dont_write_bytecode=True; import numpy, scipy, docplex, qiskit"]) == 0
sys.exit(0 if ok else 1)
