"""development aid: rewrite the functions of spec/*.vrs whose erased text is not the code
translated from the given root (after a change to transform.py), carrying annotations over"""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rlex import Tok
import rlex, transform, merge


def vshow(toks):
    o, run = "", []

    def flush():
        nonlocal o, run
        t = rlex.show(run)
        o += t.lstrip("\n") if o.endswith("\n") else t
        run = []

    for t in toks:
        if t.k == "ANN":
            flush()
            o += ("" if o.endswith("\n") or not o else "\n") + "@" + t.t.rstrip("\n") + "\n"
        else:
            run.append(t)
    flush()
    return o


V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
code = {i["key"]: i for i in transform.load(sys.argv[1] if len(sys.argv) > 1 else "/repo") if i["kind"] != "group"}
for f in merge.FILES:
    p = os.path.join(V, "spec", f + ".vrs")
    src = open(p).read()
    for e in merge.parse_vrs(p):
        if e.kind in ("group", "endgroup", "ann"):
            continue
        it = code.get(e.key)
        if it is None:
            print("gone", e.key)
        elif merge.texts(merge.erase(e.toks)) != merge.texts(it["toks"]):
            new = vshow(merge.carry(e.toks, it["toks"]))
            rx = r"\s*".join(("@" + re.escape(t.t.strip("\n")) if t.k == "ANN" else re.escape(t.t)) for t in e.toks)
            m = list(re.finditer(rx, src))
            print("carried", e.key, len(m))
            if len(m) == 1:
                src = src[:m[0].start()] + new.strip("\n ") + src[m[0].end():]
    open(p, "w").write(src)
