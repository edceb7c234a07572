#!/usr/bin/env python3
"""builds the framework once (warms the Go build cache) and parses the specifications"""
import glob, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from lab import Lab, JARS
lab = Lab()
lab.build()
print("driver built:", lab.mode)
for f in sorted(glob.glob(H + "/spec/*.tla")):
    r = subprocess.run(["java", "-cp", JARS, "tla2sany.SANY", f], cwd=H + "/spec", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.exit("specification %s does not parse:\n%s" % (f, r.stdout[-2000:]))
    print("parsed", os.path.basename(f))
