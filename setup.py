#!/usr/bin/env python3
"""Checks that the tools are there and that the committed specifications parse (nothing is kept)."""
import os, subprocess, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
w = tempfile.mkdtemp(prefix="verif-setup-")
try:
    cls = check.java_classes(w)
    rc, txt, _, _ = check.tlc(w, cls, "RatMC")
    ok = rc == 0 and "No error has been found" in txt
    print("Rat override agrees with its definitions:", ok)
    if not ok:
        print(txt[-2000:])
    check.build()
    print("extension module built")
finally:
    shutil.rmtree(w, ignore_errors=True)
sys.exit(0 if ok else 1)
