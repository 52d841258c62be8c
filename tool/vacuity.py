"""Vacuity check (development): `assert(false)` at the start of every executable function must be refused.

Prints the functions in which it is not, i.e. whose preconditions (or the axioms) contradict each other."""
import json
import os
import re
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
import merge


def main():
    res = merge.assemble(check.REPO, check.SPEC, prelude=merge.PRELUDE)
    lines = res.text.split("\n")
    last = {}
    first = {}
    for i, o in enumerate(res.owner):
        if isinstance(o, tuple) and o[-1].startswith("fn ") and o in res.contracts and o not in res.external:
            last[o] = i
            first.setdefault(o, i)
    n = 0
    where = {}
    for o in sorted(last, key=lambda k: -first[k]):
        # the body opens at the first line that ends in a lone '{' after the contract
        for i in range(first[o], last[o] + 1):
            if re.search(r"\bfn\b", lines[i]):
                break
        done = False
        for j in range(i, last[o] + 1):
            m = re.match(r"\s*\{(?=\s|$)", lines[j]) if j > i else None
            if m is None and (j == i or not re.search(r"\b(requires|ensures)\b", lines[j])):
                m = re.search(r"\{$", lines[j].rstrip())
            if m:
                lines[j] = lines[j][:m.end()] + " proof { assert(false); } " + lines[j][m.end():]
                done = True
                break
        if not done:
            continue
        where[j + 1] = o
        n += done
    w = tempfile.mkdtemp()
    f = os.path.join(w, "gen.rs")
    open(f, "w").write("\n".join(lines))
    p = subprocess.run(["verus", f, "--triggers-mode", "silent", "--rlimit", "40", "--num-threads", "8", "--error-format=json", "--multiple-errors", "10"],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    hit = set()
    other = []
    for ln in p.stderr.split("\n"):
        if ln.startswith("{"):
            d = json.loads(ln)
            for s in d["spans"]:
                if s["line_start"] in where and "assert" in d["message"]:
                    hit.add(where[s["line_start"]])
            if d["level"] == "error" and not d["spans"]:
                other.append(d["message"])
            elif d["level"] == "error" and "assert" not in d["message"]:
                other.append(d["message"] + " " + lines[d["spans"][0]["line_start"] - 1][:100])
    miss = [o for o in where.values() if o not in hit]
    print("%d functions, assert(false) refused in %d" % (n, len(hit)))
    for o in miss:
        print("NOT REFUSED:", " ".join(o))
    for x in other[:10]:
        print("other:", x)
    subprocess.run(["rm", "-rf", w])


main()
