#!/usr/bin/env python3
"""fixed.py PROPERTY 'substring of commit subject' 'what failed' : append to known_findings.txt"""
import subprocess, sys
log = subprocess.check_output(["git", "-C", "/repo", "log", "--oneline"], text=True).splitlines()
m = [l.split()[0] for l in log if sys.argv[2] in l]
assert len(m) == 1, m
open("/verif/known_findings.txt", "a").write(f"fixed: property={sys.argv[1]} {m[0]} {sys.argv[3]}\n")
