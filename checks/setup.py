#!/usr/bin/env python3
"""setup: nothing is installed; checks that the pre-installed tools answer."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
vp.run(["rustc", "+" + vp.STABLE, "--version"]); vp.run(["java", "-version"]); vp.run(["gcc", "--version"])
r = vp.tlc("FetchUpdate", "CONSTANTS N = 2\n MaxRounds = 2\n Spurious = TRUE\nSPECIFICATION Spec\nINVARIANT ResultOK\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n")
assert r.ok, r.out
print("setup ok")
