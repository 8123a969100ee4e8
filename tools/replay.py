#!/usr/bin/env python3
"""replay.py FILE: rebuilds from /repo and re-executes a reported counterexample natively; exit 1 if it is violated."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
c = json.load(open(sys.argv[1]))
e = build.build(c["crate"])
if e: print(e); sys.exit(2)
p = subprocess.run([build.REPLAY, build.artifacts(c["crate"])["so"], "-v"], input=f"{c['harness']} {c['input']}\n".encode(), stdout=subprocess.PIPE)
print(p.stdout.decode(), end="")
sys.exit(1 if p.stdout.startswith(b"violated") else 0)
