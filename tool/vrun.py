"""development driver: assemble and run Verus.  vrun.py [--root R] [verus args]"""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import merge
root = "/repo"
args = sys.argv[1:]
if args and args[0] == "--root":
    root = args[1]
    args = args[2:]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = merge.assemble(root, os.path.join(V, "spec"), prelude=merge.PRELUDE)
os.makedirs(V + "/work", exist_ok=True)
out = V + "/work/gen.rs"
open(out, "w").write(r.text)
for n in ("changed", "new", "gone"):
    for k in getattr(r, n):
        print("#", n, " ".join(k))
sys.exit(subprocess.call(["verus", out, "--triggers-mode", "silent"] + args))
