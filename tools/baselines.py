"""development: do the removed lines of each planted bug exist in the original repository?"""
import os
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
root = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
for d in sys.argv[1:] or sorted(os.listdir(HERE + "/seeded")):
    f, any_base = None, 0
    n = 0
    for x in open(HERE + "/seeded/" + d + "/patch.diff"):
        if x.startswith("--- a/"):
            f = x[6:].split("\t")[0].strip()
            base = subprocess.run(["git", "-C", "/repo", "show", root + ":" + f], capture_output=True, text=True).stdout.split("\n")
        elif x.startswith("-") and x[1:].strip():
            n += 1
            any_base += x[1:].rstrip("\n") in base
    if any_base < n:
        print(d, "removes", n, "lines,", any_base, "of them original")
