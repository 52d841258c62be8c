"""Item-level parser over token lists (rlex).  An item is a dict:
 kind: use mod struct enum trait impl fn const type ann macro
 name, attrs (list of token lists), head (tokens up to the body), body (tokens
 inside braces, or None), children (for mod/trait/impl), tail (tokens after)."""
from rlex import Tok, match_close, skip_angle


class ParseError(Exception):
    pass


def parse_items(toks, ctx=""):
    items = []
    i = 0
    n = len(toks)
    while i < n:
        if toks[i].k == "ANN":
            # consecutive item-level annotation lines form one ann item
            j = i
            while j < n and toks[j].k == "ANN":
                j += 1
            items.append(dict(kind="ann", name="", toks=toks[i:j]))
            i = j
            continue
        start = i
        attrs = []
        while toks[i].t == "#":
            j = i + 1
            if toks[j].t == "!":
                j += 1
            e = match_close(toks, j)
            attrs.append(toks[i:e + 1])
            i = e + 1
        vis = []
        if toks[i].t == "pub":
            vis = [toks[i]]
            i += 1
            if toks[i].t == "(":
                e = match_close(toks, i)
                vis += toks[i:e + 1]
                i = e + 1
        hs = i
        quals = []
        while toks[i].t in ("unsafe", "async", "extern", "default") or (toks[i].t == "const" and toks[i + 1].t in ("fn", "unsafe")):
            quals.append(toks[i])
            i += 1
        kw = toks[i].t
        it = dict(attrs=attrs, vis=vis, line=toks[start].line, lead=toks[start].ws)
        if kw in ("use", "const", "static", "type"):
            j = i
            while toks[j].t != ";":
                if toks[j].k == "p" and toks[j].t in "([{":
                    j = match_close(toks, j)
                j += 1
            it.update(kind=kw, name="".join(t.t for t in toks[i + 1:j]) if kw == "use" else toks[i + 1].t, toks=toks[hs:j + 1])
            i = j + 1
        elif kw == "mod":
            it.update(kind="mod", name=toks[i + 1].t)
            if toks[i + 2].t == ";":
                it.update(toks=toks[hs:i + 3], children=None)
                i += 3
            else:
                e = match_close(toks, i + 2)
                it.update(head=toks[hs:i + 2], children=parse_items(toks[i + 3:e]))
                i = e + 1
        elif kw in ("struct", "enum", "union"):
            j = i + 2
            if toks[j].t == "<":
                j = skip_angle(toks, j)
            while toks[j].t not in ("{", "(", ";") or toks[j].k != "p":
                j += 1
            if toks[j].t == ";":
                e = j
            else:
                e = match_close(toks, j)
                if toks[j].t == "(":
                    while toks[e].t != ";":
                        e += 1
            it.update(kind=kw, name=toks[i + 1].t, toks=toks[hs:e + 1], bodypos=j - hs)
            i = e + 1
        elif kw in ("trait", "impl"):
            j = i + 1
            while not (toks[j].k == "p" and toks[j].t == "{"):
                if toks[j].t in ("(", "["):
                    j = match_close(toks, j)
                j += 1
            e = match_close(toks, j)
            head = toks[hs:j]
            name = toks[i + 1].t if kw == "trait" else impl_name(head)
            it.update(kind=kw, name=name, head=head, children=parse_items(toks[j + 1:e]))
            i = e + 1
        elif kw == "fn":
            j = i + 2
            if toks[j].t == "<":
                j = skip_angle(toks, j)
            j = match_close(toks, j) + 1
            while not (toks[j].k == "p" and toks[j].t in ("{", ";")):
                if toks[j].k == "p" and toks[j].t in ("(", "["):
                    j = match_close(toks, j)
                j += 1
            if toks[j].t == ";":
                it.update(kind="fn", name=toks[i + 1].t, toks=toks[hs:j + 1], bodypos=None)
                i = j + 1
            else:
                e = match_close(toks, j)
                it.update(kind="fn", name=toks[i + 1].t, toks=toks[hs:e + 1], bodypos=j - hs)
                i = e + 1
        elif toks[i + 1].t == "!":
            j = i + 2
            while toks[j].t not in ("(", "[", "{"):
                j += 1
            e = match_close(toks, j)
            brace = toks[j].t == "{"
            i = e + 1
            if not brace and i < n and toks[i].t == ";":
                i += 1
            it.update(kind="macro", name=kw, toks=toks[hs:i])
        else:
            raise ParseError("unexpected token %r at line %d" % (toks[i].t, toks[i].line))
        items.append(it)
    return items


def impl_name(head):
    """canonical 'Trait for Type' without lifetimes, spaces removed"""
    ts = [t for t in head if t.k != "life" and t.k != "ANN"]
    ts = ts[1:] if ts[0].t == "impl" else ts[2:]
    if ts and ts[0].t == "<":
        e = skip_angle(ts, 0)
        ts = ts[e:]
    # drop where clause
    out = []
    for t in ts:
        if t.t == "where":
            break
        out.append(t)
    s = " ".join(t.t for t in out)
    s = s.replace("< >", "").replace("< _ >", "").replace("< , ", "< ")
    return "".join(s.split(" for ")[0].split()) + (" for " + "".join(s.split(" for ")[1].split()) if " for " in s else "")
