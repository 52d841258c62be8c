"""A small Rust lexer.  Tokens carry their text, kind, the white space before
them and their line, so a token list can be printed back as it was written.
Comments are dropped.  In annotated (.vrs) files a line whose first non-blank
character is '@' is one ANN token (its text without the '@')."""
import re


class Tok:
    __slots__ = ("t", "k", "ws", "line", "opt")

    def __init__(self, t, k, ws="", line=0):
        self.t, self.k, self.ws, self.line = t, k, ws, line

    def __repr__(self):
        return self.t


class LexError(Exception):
    pass


PUNCT = ["<<=", ">>=", "...", "..=", "::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||",
         "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", ".."]
NUM = re.compile(r"0x[0-9a-fA-F_]+\w*|0b[01_]+\w*|0o[0-7_]+\w*|"
                 r"[0-9][0-9_]*(?:\.(?![.\w])|\.[0-9][0-9_]*)?(?:[eE][+-]?[0-9_]+)?(?:[a-z]\w*)?")
IDENT = re.compile(r"[A-Za-z_]\w*")
LIFE = re.compile(r"'[A-Za-z_]\w*(?!')")
CHAR = re.compile(r"b?'(?:\\(?:u\{[^}]*\}|x..|.)|[^\\'])'", re.S)
STR = re.compile(r'b?"(?:\\.|[^"\\])*"', re.S)
RAW = re.compile(r'b?r(#*)"')


def lex(src, ann=False):
    out = []
    i = 0
    n = len(src)
    ws = ""
    line = 1
    bol = True
    while i < n:
        c = src[i]
        if c.isspace():
            ws += c
            if c == "\n":
                line += 1
                bol = True
            i += 1
            continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j):
                    d += 1
                    j += 2
                elif src.startswith("*/", j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            line += src.count("\n", i, j)
            i = j
            ws += " "
            continue
        if ann and bol and c == "@":
            j = src.find("\n", i)
            j = n if j < 0 else j
            out.append(Tok(src[i + 1:j], "ANN", ws, line))
            ws = ""
            i = j
            continue
        bol = False
        m = None
        k = None
        for rx, kind in ((RAW, "raw"), (CHAR, "char"), (LIFE, "life"), (STR, "str"), (NUM, "num"), (IDENT, "id")):
            m = rx.match(src, i)
            if m and kind == "num" and out and out[-1].t == "." and ws == "":
                m = re.compile(r"[0-9]+").match(src, i)
            if m:
                k = kind
                break
        if k == "raw":
            end = src.index('"' + m.group(1), m.end()) + 1 + len(m.group(1))
            t = src[i:end]
            k = "str"
        elif m:
            t = m.group(0)
        else:
            for p in PUNCT:
                if src.startswith(p, i):
                    t, k = p, "p"
                    break
            else:
                t, k = c, "p"
        out.append(Tok(t, k, ws, line))
        line += t.count("\n")
        ws = ""
        i += len(t)
    return out


OPEN = {"(": ")", "[": "]", "{": "}"}


def match_close(toks, i):
    """index of the token closing the bracket at i"""
    d = 0
    for j in range(i, len(toks)):
        if toks[j].k == "p":
            if toks[j].t in OPEN:
                d += 1
            elif toks[j].t in (")", "]", "}"):
                d -= 1
                if d == 0:
                    return j
    raise LexError("unbalanced bracket at line %d" % toks[i].line)


def skip_angle(toks, i):
    """i at '<'; index after the matching '>'"""
    d = 0
    j = i
    while j < len(toks):
        t = toks[j].t
        if toks[j].k == "p":
            if t == "<":
                d += 1
            elif t == ">":
                d -= 1
                if d == 0:
                    return j + 1
            elif t in OPEN:
                j = match_close(toks, j)
            elif t in (">=", ">>="):
                raise LexError("angle")
        j += 1
    raise LexError("unbalanced <")


def show(toks):
    o = []
    prev = ""
    for t in toks:
        ws = t.ws
        if ws.count("\n") > 1:
            ws = "\n" + ws[ws.rfind("\n") + 1:]
        if t.k == "ANN":
            w = ws if "\n" in ws else "\n" + ws
            o.append(w + t.t + "\n")
            prev = ""
            continue
        if not ws and prev and (prev[-1].isalnum() or prev[-1] == "_") and (t.t[0].isalnum() or t.t[0] in "_'\""):
            ws = " "
        if not ws and prev and prev[-1] in "=<>&|-+*/.:" and t.t[0] in "=<>&|-+*/.:" and t.k == "p" and (prev + t.t) not in ("<<", ">>"):
            ws = " "
        o.append(ws + t.t)
        prev = t.t
    return "".join(o)
