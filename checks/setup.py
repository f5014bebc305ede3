#!/usr/bin/env python3
"""Sanity of the toolchain the checks use (nothing is kept)."""
import subprocess, sys, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for c in (["gcc","--version"],["java","-version"],["make","--version"],["git","--version"]):
    subprocess.run(c,check=True,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
for f in ("/opt/veriftools/tla/tla2tools.jar",V+"/properties.jsonl",V+"/spec"):
    if not os.path.exists(f): sys.exit("missing "+f)
print("ok")
