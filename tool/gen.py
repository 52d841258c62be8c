"""development aid: print the translated code of one source file, to start a .vrs file"""
import sys
sys.path.insert(0, __file__.rsplit("/", 1)[0])
from rlex import show
import transform, merge
its = transform.load(sys.argv[1])
g = None
for it in its:
    if it["file"] not in sys.argv[2:]:
        continue
    if it["kind"] == "group":
        if g is not None:
            print("}")
        g = it["group"]
        print(show(g) + " {")
        continue
    if it["key"] in merge.SKIP:
        continue
    if it["group"] is not g:
        print("}")
        g = it["group"]
    print(show(it["toks"]))
if g is not None:
    print("}")
