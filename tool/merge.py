"""Joins the translated crate (transform.py) with the annotations in /verif/spec/*.vrs.

A .vrs file holds the translated code with annotation lines (first character '@').  Erasing
those lines gives code; the code that is sent to the verifier is ALWAYS the code translated
from /repo in this run: if the erased text of a function equals it, the annotated text is used
as it stands, otherwise the annotation lines are carried over to the new token sequence."""
import difflib
import os
import re
from rlex import Tok, lex, show, match_close
from ritems import parse_items, impl_name
import transform

FILES = ["points", "shape", "utils", "triangles", "front", "sweeper", "cdt", "loader"]
PRELUDE = ("prelude.rs", "geo.rs", "mesh.rs", "mesh2.rs", "tile.rs", "load.rs")
SKIP = {
    ("type Float",): "float type: modelled by the trusted type Float",
    ("impl NodeId", "fn clone"): "derived",
}


SRCFILE = {"points.rs": "points", "shape.rs": "shape", "utils.rs": "utils", "triangles.rs": "triangles", "sweeper.rs": "sweeper",
           "cdt.rs": "cdt", "lib.rs": "cdt", "loader.rs": "loader", "advancing_front/mod.rs": "front", "advancing_front/vec_backed.rs": "front"}


class Entry:
    def __init__(self, key, toks, group, kind, pre=None):
        self.key, self.toks, self.group, self.kind, self.pre = key, toks, group, kind, pre or []


def erase(toks):
    return [t for t in toks if t.k != "ANN"]


def parse_vrs(path):
    """list of Entry / raw annotation text, in file order"""
    out = []
    items = parse_items(lex(open(path).read(), ann=True))

    def add(its, group, gname):
        pend = []
        for it in its:
            k = it["kind"]
            if k == "ann":
                pend += it["toks"]
                continue
            # attributes bind to the item; other annotation lines stand alone
            cut = len(pend)
            while cut > 0 and pend[cut - 1].t.strip().startswith("#["):
                cut -= 1
            if cut:
                out.append(Entry(None, pend[:cut], group, "ann"))
            pre, pend = pend[cut:], []
            if k in ("impl", "trait"):
                nm = k + " " + it["name"]
                out.append(Entry((nm, ""), [], [t for t in it.get("vis", [])] + it["head"], "group", pre))
                add(it["children"], ([t for t in it.get("vis", [])] + it["head"]), nm)
                out.append(Entry(None, [], None, "endgroup"))
                continue
            key = (k + " " + it["name"],) if gname is None else (gname, k + " " + it["name"])
            toks = []
            for a in it.get("attrs", []):
                toks += a
            toks += it.get("vis", []) + it["toks"]
            out.append(Entry(key, toks, group, k, pre))
        if pend:
            out.append(Entry(None, pend, group, "ann"))

    add(items, None, None)
    return out


def texts(toks):
    return [t.t for t in toks]


STRUCT = re.compile(r"\s*(requires|ensures|invariant\w*|decreases|returns|->|recommends|opens_invariants|no_unwind)\b|\s*->")


def boundaries(toks):
    """positions of a token list where a statement may be put"""
    ok = [False] * (len(toks) + 1)
    st = []
    pend = []        # depths at which a `match` waits for its body
    for i, t in enumerate(toks):
        if t.k == "id" and t.t == "match":
            pend.append(len(st))
        elif t.k == "p" and t.t in ("(", "["):
            st.append("x")
        elif t.k == "p" and t.t == "{":
            if pend and pend[-1] == len(st):
                pend.pop()
                st.append("match")
            elif i and toks[i - 1].k == "id" and toks[i - 1].t[:1].isupper() and not any(x.t in ("->", "impl", "for") for x in toks[max(0, i - 3):i]):
                st.append("x")
            else:
                st.append("block")
                ok[i + 1] = True
        elif t.k == "p" and t.t in (")", "]", "}"):
            if st:
                st.pop()
            nx = toks[i + 1] if i + 1 < len(toks) else None
            if t.t == "}" and st and st[-1] == "block" and nx is not None and nx.t not in ("else", ".", ",", ")", "?", ";", "]", "=>", "==", "!=", "&&", "||", "}", "+", "-", "*", "<", ">"):
                ok[i + 1] = True
        elif t.k == "p" and t.t == ";" and st and st[-1] == "block":
            ok[i + 1] = True
    return ok


def loop_bodies(toks):
    """position of the body brace of every loop, in order"""
    out = []
    for i, t in enumerate(toks):
        if t.k == "id" and t.t in ("while", "loop"):
            j, d = i + 1, 0
            while j < len(toks) and not (toks[j].t == "{" and d == 0):
                d += toks[j].t in ("(", "[")
                d -= toks[j].t in (")", "]")
                j += 1
            out.append(j)
    return out


def places(ann_toks, new):
    """[(annotation lines, structural, position in new, other positions it may be moved to)]"""
    A = erase(ann_toks)
    ta, tb = texts(A), texts(new)
    sm = difflib.SequenceMatcher(None, ta, tb, autojunk=False)
    a2b = {}
    for a, b, n in sm.get_matching_blocks():
        for q in range(n):
            a2b[a + q] = b + q
    bd = [i for i, x in enumerate(boundaries(new)) if x]
    la, lb = loop_bodies(A), loop_bodies(new)
    groups = []
    pos = 0
    last = None
    for t in ann_toks:
        if t.k != "ANN":
            pos += 1
            last = None
            continue
        if last is not None:
            last[0].append(t)
            continue
        # the annotation stands between A[pos-1] and A[pos]
        if pos < len(A) and A[pos].t == "{" and pos in a2b:
            at = a2b[pos]
        elif pos - 1 in a2b:
            at = a2b[pos - 1] + 1
        elif pos in a2b:
            at = a2b[pos]
        else:
            q = pos - 1
            while q >= 0 and q not in a2b:
                q -= 1
            at = a2b[q] + 1 if q >= 0 else 0
        struct = bool(STRUCT.match(t.t))
        if struct and pos in la and at not in lb and len(la) == len(lb):
            at = lb[la.index(pos)]     # what holds in the n-th loop
        near = [] if struct else ([z for z in bd if z > at][:4] + [z for z in bd if z < at][::-1][:3])
        last = ([t], struct, at, near)
        groups.append(last)
    return groups


def carry(ann_toks, new, choice=None):
    """place the annotation lines of ann_toks into the token list new.
    choice: "at": group -> position (groups that follow it are not left behind), "drop": proof lines to leave out.
    Contracts and loop invariants are never moved or left out."""
    choice = choice or {}
    ins = {}
    low = 0
    for g, (ts, struct, at, near) in enumerate(places(ann_toks, new)):
        if not struct:
            if g in choice.get("at", {}):
                at = choice["at"][g]
                low = max(low, at)
            elif low and at < low:
                at = low
        for i, t in enumerate(ts):
            if struct:
                ins.setdefault(at, []).append(t)
            elif (g, i) not in choice.get("drop", ()):
                ins.setdefault(at, []).append(Tok(t.t + " //~%d.%d" % (g, i), "ANN", t.ws, t.line))
    out = []
    for i, t in enumerate(new):
        out += ins.get(i, [])
        out.append(t)
    out += ins.get(len(new), [])
    return out


class Result:
    def __init__(self):
        self.text = ""
        self.owner = []      # per line: key or None
        self.changed = []    # keys whose code differs from the annotated text
        self.new = []        # keys without annotations
        self.gone = []       # annotated keys that no longer exist
        self.same = []
        self.file = {}       # key -> spec file
        self.pending = []    # contract not discharged yet (listed in pending.txt)
        self.external = []   # body taken on trust
        self.contracts = []  # functions with annotations
        self.groups = {}     # key -> annotation groups with their candidate positions
        self.base = {}       # key -> the code the annotations were written for


def body_hash(toks):
    import hashlib
    return hashlib.sha256(" ".join(texts(toks)).encode()).hexdigest()[:16]


def read_pending(spec):
    p = os.path.join(spec, "pending.txt")
    if not os.path.exists(p):
        return []
    return [tuple(x.split(" / ")) for x in open(p).read().split("\n") if x.strip() and not x.startswith("#")]


def cut(toks, level):
    """the function without its body; from level 2 on also without its contract"""
    d = 0
    out = []
    for t in toks:
        if t.k == "ANN":
            if level < 2:
                out.append(t)
            continue
        if t.t in ("(", "["):
            d += 1
        elif t.t in (")", "]"):
            d -= 1
        elif t.t == "{" and d == 0:
            break
        out.append(t)
    return show(out) + "\n{ unimplemented!() }"


def assemble(root, spec, files=FILES, prelude=("prelude.rs",), drop=(), pend=None, choice=None, only=None):
    """choice: key -> where the annotations of a changed function go (see carry);
    only: the bodies of all other functions and lemmas are left out (to try placements quickly)"""
    pend = read_pending(spec) if pend is None else pend
    ext = "#[verifier::external_body]"
    items = transform.load(root)
    code = {}
    for it in items:
        if it["kind"] == "group":
            continue
        if it["key"] in code:
            raise transform.Unsupported("two items %r" % (it["key"],))
        code[it["key"]] = it
    res = Result()
    lines = []

    def emit(text, key=None):
        for ln in text.split("\n"):
            lines.append(ln)
            res.owner.append(key)

    # every function gets a solver of its own: what one of them costs does not depend on the others
    spin = "#[verifier::spinoff_prover]"
    for p in prelude:
        text = open(os.path.join(spec, p)).read()
        if p != "prelude.rs":
            text = re.sub(r"(?m)^((?:pub )?(?:broadcast )?proof fn )", (spin if only is None else ext) + r" \1", text)
        emit(text, "spec:" + p)
    done = set()
    late = []
    for f in files:
        ents = parse_vrs(os.path.join(spec, f + ".vrs"))
        openg = None
        for e in ents:
            if e.kind == "group":
                openg = e
                emit(show(e.pre) + show([Tok(t.t, t.k, t.ws) for t in e.group]) + " {")
                continue
            if e.kind == "endgroup":
                emit("}")
                openg = None
                continue
            if e.kind == "ann":
                emit(show(e.toks), "spec:" + f)
                continue
            it = code.get(e.key)
            if it is None:
                res.gone.append(e.key)
                continue
            done.add(e.key)
            res.file[e.key] = f
            if texts(erase(e.toks)) == texts(it["toks"]):
                res.same.append(e.key)
                toks = e.toks
            else:
                res.changed.append(e.key)
                res.base[e.key] = texts(erase(e.toks))
                res.groups[e.key] = places(e.toks, it["toks"])
                toks = carry(e.toks, it["toks"], (choice or {}).get(e.key))
            if any(t.k == "ANN" for t in e.toks):
                res.contracts.append(e.key)
            if "external_body" in show(e.pre):
                res.external.append(e.key)
            elif e.key in pend:
                res.pending.append(e.key)
                emit(ext, e.key)
            elif only is not None and e.kind == "fn" and e.key not in only and e.key in res.contracts and e.key[0][:5] != "trait":
                emit(ext, e.key)
                emit(cut(toks, 1), e.key)
                continue
            elif e.key in drop:
                if drop[e.key] < 3:
                    emit(ext, e.key)
                    emit(cut(toks, drop[e.key]), e.key)
                continue
            if e.pre:
                emit(show(e.pre), e.key)
            if e.kind == "fn" and e.key in res.contracts and e.key not in res.external and e.key not in pend and e.key not in drop and e.key[0][:5] != "trait":
                emit(spin, e.key)
            emit(show(toks), e.key)
    for key, it in code.items():
        if key in done or key in SKIP:
            continue
        if len(key) > 1 and key[1] == "" or it["kind"] not in ("fn", "const", "struct", "enum", "type"):
            continue
        res.new.append(key)
        res.file[key] = SRCFILE.get(it["file"], "sweeper")
        g = it["group"]
        if drop and drop.get(key, 0) >= 2:
            continue
        x = ext + "\n" + cut(it["toks"], 2) if key in drop else show(it["toks"])
        if g is not None:
            emit(show(g) + " {" + x + "\n}", key)
        else:
            emit(x, key)
    emit("} // verus!\nfn main() {}")
    res.text = "\n".join(lines) + "\n"
    res.code = code
    return res
