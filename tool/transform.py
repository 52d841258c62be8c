"""Mechanical, per-run translation of /repo/src into the Verus dialect.
Every rule here is listed in DESIGN.md ("What the extraction changes").  A construct no rule
covers is left alone: Verus then rejects the function and the check says so."""
import os
import re
from rlex import Tok, lex, match_close, skip_angle, LexError, OPEN
from ritems import parse_items, impl_name

SRC = ["lib.rs", "points.rs", "shape.rs", "utils.rs", "triangles.rs", "advancing_front/mod.rs",
       "advancing_front/vec_backed.rs", "sweeper.rs", "cdt.rs", "loader.rs"]
MODS = {"points", "shape", "utils", "triangles", "advancing_front", "sweeper", "cdt", "loader", "vec_backed"}
KEEP_DERIVE = ["Clone", "Copy", "PartialEq", "Eq"]
DROP_IMPL = re.compile(r"(Debug|Display) for ")


class Unsupported(Exception):
    pass


def T(s, ws=" "):
    return [Tok(t.t, t.k, t.ws or (ws if i == 0 else "")) for i, t in enumerate(lex(s))]


def txt(toks):
    return " ".join(t.t for t in toks)


def cfg_test(attr):
    return txt(attr) == "# [ cfg ( test ) ]"


def cfg_off(attr):
    """attributes that drop the item in the analysed configuration (default features, not test)"""
    return txt(attr) in ("# [ cfg ( test ) ]", '# [ cfg ( feature = "f32" ) ]')


def split_commas(toks):
    out, cur, i, ang = [], [], 0, 0
    while i < len(toks):
        t = toks[i]
        if t.k == "p" and t.t in OPEN:
            e = match_close(toks, i)
            cur += toks[i:e + 1]
            i = e + 1
            continue
        if t.t == "<":
            ang += 1
        if t.t == ">":
            ang -= 1
        if t.t == "," and ang == 0:
            out.append(cur)
            cur = []
        else:
            cur.append(t)
        i += 1
    if cur:
        out.append(cur)
    return out


# ---------------------------------------------------------------- expressions

def strip_attr_stmts(toks):
    """drop #[cfg(test)] statements and all other attributes inside bodies"""
    out, i = [], 0
    while i < len(toks):
        if toks[i].t == "#" and i + 1 < len(toks) and toks[i + 1].t == "[":
            e = match_close(toks, i + 1)
            drop = cfg_off(toks[i:e + 1])
            i = e + 1
            if drop:
                # statement / field: up to ';' or ',' at depth 0, or end
                while i < len(toks):
                    if toks[i].k == "p" and toks[i].t in OPEN:
                        i = match_close(toks, i) + 1
                        continue
                    if toks[i].k == "p" and toks[i].t in (";", ","):
                        i += 1
                        break
                    if toks[i].k == "p" and toks[i].t in (")", "]", "}"):
                        break
                    i += 1
            continue
        out.append(toks[i])
        i += 1
    return out


def strip_paths(toks):
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.t in ("crate", "super") and i + 1 < len(toks) and toks[i + 1].t == "::":
            ws = t.ws
            i += 2
            while toks[i].t in MODS and toks[i + 1].t == "::":
                i += 2
            out.append(Tok(toks[i].t, toks[i].k, ws, toks[i].line))
            i += 1
            continue
        if t.t in MODS and i + 1 < len(toks) and toks[i + 1].t == "::" and (not out or out[-1].t not in (".", "::")):
            ws = t.ws
            i += 2
            out.append(Tok(toks[i].t, toks[i].k, ws, toks[i].line))
            i += 1
            continue
        out.append(t)
        i += 1
    return out


FLT = re.compile(r"^[0-9][0-9_]*(\.[0-9_]*)?([eE][+-]?[0-9]+)?(_?f32|_?f64)?$")


def is_float(t):
    return t.k == "num" and not t.t.startswith("0x") and ("." in t.t or "e" in t.t.lower() or t.t.endswith(("f64", "f32"))) and FLT.match(t.t)


def real_text(s):
    s = s.replace("_", "").replace("f64", "").replace("f32", "")
    m = re.match(r"^([0-9]+)(?:\.([0-9]*))?(?:[eE]([+-]?[0-9]+))?$", s)
    ip, fp, ex = m.group(1), m.group(2) or "", int(m.group(3) or 0)
    from fractions import Fraction
    v = Fraction(ip + "." + (fp or "0")) * (Fraction(10) ** ex)
    # the value of the literal as an f64, exactly
    v = Fraction(float(v))
    if v.denominator == 1:
        return "%d.0real" % v.numerator
    return "(%d.0real / %d.0real)" % (v.numerator, v.denominator)


def floats(toks):
    out = []
    for i, t in enumerate(toks):
        if is_float(t):
            if out and out[-1].t == "-" and (len(out) < 2 or (out[-2].k == "p" and out[-2].t not in (")", "]"))):
                m = out.pop()
                out += T("Float::lit(Ghost(-%s))" % real_text(t.t), m.ws)
            else:
                out += T("Float::lit(Ghost(%s))" % real_text(t.t), t.ws)
        else:
            out.append(t)
    return out


def macros(toks):
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.k == "id" and i + 2 < len(toks) and toks[i + 1].t == "!" and toks[i + 2].t in OPEN and toks[i + 2].k == "p":
            e = match_close(toks, i + 2)
            inner = toks[i + 3:e]
            if t.t in ("panic", "unreachable", "todo", "unimplemented"):
                out += T("rt_panic()", t.ws)
                i = e + 1
                continue
            if t.t.startswith("debug_assert"):
                i = e + 1
                if i < len(toks) and toks[i].t == ";":
                    i += 1
                else:
                    out += T("()", t.ws)
                continue
            if t.t == "assert":
                a = split_commas(inner)[0]
                out += T("rt_assert(", t.ws) + macros(a) + T(")", "")
                i = e + 1
                continue
            if t.t in ("assert_eq", "assert_ne"):
                a = split_commas(inner)
                op = "==" if t.t == "assert_eq" else "!="
                out += T("rt_assert((", t.ws) + macros(a[0]) + T(") %s (" % op, "") + macros(a[1]) + T("))", "")
                i = e + 1
                continue
            if t.t == "vec":
                if not inner:
                    out += T("Vec::new()", t.ws)
                    i = e + 1
                    continue
        out.append(t)
        i += 1
    return out


def unwraps(toks):
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.t == "." and i + 2 < len(toks) and toks[i + 1].t in ("unwrap", "expect") and toks[i + 2].t == "(":
            e = match_close(toks, i + 2)
            out += [t] + T("rt_unwrap()", toks[i + 1].ws or "")
            i = e + 1
            continue
        out.append(t)
        i += 1
    return out


def find_block(toks, i):
    """first '{' at bracket depth 0 from i"""
    while not (toks[i].k == "p" and toks[i].t == "{"):
        if toks[i].k == "p" and toks[i].t in ("(", "["):
            i = match_close(toks, i)
        i += 1
    return i


def for_loops(toks, ctr=None):
    """for PAT in a..b {B}  =>  let mut i__k = a; while i__k < b { let PAT = i__k; i__k += 1; B }
       for PAT in E {B}     =>  let mut i__k = (E).into_iter(); while let Some(PAT) = i__k.next() { B }"""
    ctr = ctr if ctr is not None else [0]
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.t == "for" and t.k == "id" and toks[i + 1].t != "<":
            j = i + 1
            while not (toks[j].k == "id" and toks[j].t == "in"):
                if toks[j].k == "p" and toks[j].t in OPEN:
                    j = match_close(toks, j)
                j += 1
            pat = toks[i + 1:j]
            b = find_block(toks, j + 1)
            ex = toks[j + 1:b]
            e = match_close(toks, b)
            body = for_loops(toks[b + 1:e], ctr)
            k = ctr[0]
            ctr[0] += 1
            v = "i__%d" % k
            rng = None
            d = 0
            for q, x in enumerate(ex):
                if x.k == "p" and x.t in OPEN:
                    d += 1
                elif x.k == "p" and x.t in (")", "]", "}"):
                    d -= 1
                elif x.t == ".." and d == 0:
                    rng = q
            if rng is not None:
                lo, hi = ex[:rng], ex[rng + 1:]
                out += T("let mut %s: usize =" % v, t.ws) + lo + T(";", "") + T("while %s <" % v, t.ws) + hi
                out += [toks[b]] + T("let", " ") + pat + T("= %s; %s += 1;" % (v, v)) + body + [toks[e]]
            else:
                if ex[0].t == "&" and ex[1].t != "mut" and not (ex[1].t == "[" or ex[-1].t == "]"):
                    ex = ex[1:] + T(". iter ( )")
                if txt(ex[-4:]) == ". iter ( )":
                    sv = "s__i%d" % k
                    out += T("let %s = &" % sv, t.ws) + ex[:-4] + T("; let mut %s: usize = 0;" % v, "")
                    out += T("while %s < %s.len()" % (v, sv), t.ws) + [toks[b]] + T("let", " ") + pat + T("= &%s[%s]; %s += 1;" % (sv, v, v)) + body + [toks[e]]
                    i = e + 1
                    continue
                if txt(ex[-4:]) == ". into_iter ( )":
                    ex = ex[:-4]
                arr = ex and ex[0].t == "[" and match_close(ex, 0) == len(ex) - 1 and not any(x.t == ";" for x in ex)
                if arr and not any(x.t in ("break", "continue") for x in body):
                    # for PAT in [a, b] {B}  =>  let v_0 = a; let v_1 = b; { let PAT = v_0; B } { let PAT = v_1; B }
                    els = [x for x in split_commas(ex[1:-1]) if x]
                    for q, x in enumerate(els):
                        out += T("let %s_%d =" % (v, q), t.ws) + x + T(";", "")
                    for q in range(len(els)):
                        out += [toks[b]] + T("let", " ") + pat + T("= %s_%d;" % (v, q)) + body + [toks[e]]
                    i = e + 1
                    continue
                out += T("let mut %s =" % v, t.ws) + T("rt_iter(") + ex + T(");", "")
                out += T("while let Some(", t.ws) + pat + T(") = %s.next()" % v, "")
                out += [toks[b]] + body + [toks[e]]
            i = e + 1
            continue
        out.append(t)
        i += 1
    return out


def split_or_arms(toks):
    """P | Q if G => B   becomes   P if G => B, Q if G => B  (match arms)"""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.t == "match" and t.k == "id":
            b = find_block(toks, i + 1)
            e = match_close(toks, b)
            out += toks[i:b + 1]
            j = b + 1
            while j < e:
                # pattern [if guard] => body
                a = j
                while toks[j].t != "=>":
                    if toks[j].k == "p" and toks[j].t in OPEN:
                        j = match_close(toks, j)
                    j += 1
                pat = toks[a:j]
                g = None
                q = 0
                while q < len(pat):
                    if pat[q].k == "p" and pat[q].t in OPEN:
                        q = match_close(pat, q)
                    elif pat[q].t == "if":
                        g = q
                        break
                    q += 1
                arrow = toks[j]
                j += 1
                if toks[j].t == "{":
                    z = match_close(toks, j) + 1
                    # a block body may be followed by an optional comma
                    body = toks[j:z]
                    if z < e and toks[z].t == ",":
                        z += 1
                else:
                    z = j
                    while z < e and toks[z].t != ",":
                        if toks[z].k == "p" and toks[z].t in OPEN:
                            z = match_close(toks, z)
                        z += 1
                    body = toks[j:z]
                    if z < e:
                        z += 1
                body = split_or_arms(body)
                if g is not None:
                    alts, cur, q = [], [], 0
                    while q < g:
                        if pat[q].t == "|":
                            alts.append(cur)
                            cur = []
                        else:
                            cur.append(pat[q])
                        q += 1
                    alts.append(cur)
                    if len(alts) > 1:
                        for al in alts:
                            out += al + pat[g:] + [arrow] + body + T(",", "")
                        j = z
                        continue
                tail = toks[z - 1:z] if toks[z - 1].t == "," else []
                out += pat + [arrow] + body + (tail if tail else [])
                if not tail and body and body[-1].t != "}" and z < e:
                    out += T(",", "")
                j = z
            out.append(toks[e])
            i = e + 1
            continue
        out.append(t)
        i += 1
    return out


def match_open(toks, j):
    d = 0
    for i in range(j, -1, -1):
        if toks[i].k == "p":
            if toks[i].t in (")", "]", "}"):
                d += 1
            elif toks[i].t in OPEN:
                d -= 1
                if d == 0:
                    return i
    raise LexError("unbalanced")


def chain_start(out):
    """index in `out` where the postfix expression ending at its end begins"""
    i = len(out) - 1
    while i >= 0:
        t = out[i]
        if t.k == "p" and t.t in (")", "]"):
            i = match_open(out, i) - 1
            continue
        if t.k in ("id", "num") and t.t not in ("return", "in", "let", "mut", "else", "match", "if") or t.t in (".", "::", "?"):
            i -= 1
            continue
        break
    return i + 1


def closure(inner):
    """(pattern, body) of a closure token list |pat| body"""
    if not inner or inner[0].t != "|":
        return None
    j = 1
    while inner[j].t != "|":
        if inner[j].k == "p" and inner[j].t in OPEN:
            j = match_close(inner, j)
        j += 1
    return inner[1:j], inner[j + 1:]


def chains(toks, ctr=None):
    """E.iter()/.into_iter() [.enumerate()] [.skip(n)] .map(|p| b) [.collect()] [.into_iter()]
       becomes an explicit index loop that pushes b into a Vec (see DESIGN.md)"""
    ctr = ctr if ctr is not None else [0]
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.t == "." and i + 3 < len(toks) and toks[i + 1].t in ("iter", "into_iter") and toks[i + 2].t == "(" and toks[i + 3].t == ")":
            base = toks[i + 1].t
            j = i + 4
            en, sk, mp, zp = False, None, None, None
            ok = True
            while j + 2 < len(toks) and toks[j].t == "." and mp is None and ok:
                m = toks[j + 1].t
                if m in ("enumerate", "skip", "map", "cloned", "copied", "zip") and toks[j + 2].t == "(":
                    e = match_close(toks, j + 2)
                    a = toks[j + 3:e]
                    if m == "zip" and zp is None and not en and sk is None and base == "iter" and txt(a[-4:]) == ". iter ( )":
                        zp = a[:-4]
                        j = e + 1
                        continue
                    if m == "enumerate" and not en and sk is None:
                        en = True
                    elif m == "skip" and not en and sk is None:
                        sk = a
                    elif m == "map":
                        c = closure(a)
                        if c is None:
                            ok = False
                            break
                        mp = c
                    else:
                        ok = False
                        break
                    j = e + 1
                else:
                    break
            if ok and mp is not None:
                k = ctr[0]
                ctr[0] += 1
                s = chain_start(out)
                recv = out[s:]
                out = out[:s]
                ws = recv[0].ws
                v, src, o = "c__%d" % k, "s__%d" % k, "o__%d" % k
                user = base == "iter" and len(recv) == 3 and txt(recv[:2]) == "self ." and FIELDS.get(CUR[0], {}).get(recv[2].t, set()) & ITERS
                if user:
                    # a method `iter` of the crate itself, read through its contract
                    base, recv = "into_iter", T("(") + recv + T(".iter()).v", "")
                    recv[0].ws = recv[1].ws
                elem = "&%s[%s]" % (src, v) if base == "iter" else "%s[%s]" % (src, v)
                if zp is not None:
                    elem = "(%s, &z__%d[%s])" % (elem, k, v)
                if en:
                    elem = "(%s, %s)" % (v, elem)
                pat, body = mp
                body = chains(body, ctr)
                if body and body[0].t == "{" and match_close(body, 0) == len(body) - 1:
                    # statements of the block, then its value
                    st, val = block_value(body[1:-1])
                else:
                    st, val = [], body
                blk = T("{ let %s =" % src, ws or " ") + (T("&", " ") if base == "iter" else []) + recv
                if zp is not None:
                    blk += T("; let z__%d = &" % k, "") + zp
                blk += T("; let mut %s = Vec::new(); let mut %s: usize =" % (o, v), "")
                blk += (sk if sk is not None else T("0")) + T("; while %s < %s.len()" % (v, src), "\n")
                if zp is not None:
                    blk += T("&& %s < z__%d.len()" % (v, k))
                blk += T("{ let", "\n") + pat + T("= %s;" % elem) + st + T("%s.push(" % o, "\n") + val + T("); %s += 1; }" % v, "") + T("%s }" % o, "\n")
                # terminal
                fin = "iter"
                if j + 1 < len(toks) and toks[j].t == "." and toks[j + 1].t == "collect":
                    j += 2
                    if toks[j].t == "::":
                        j = skip_angle(toks, j + 1)
                    j = match_close(toks, j) + 1
                    fin = "vec"
                    if j + 3 < len(toks) and toks[j].t == "." and toks[j + 1].t in ("into_iter",) and toks[j + 2].t == "(":
                        j += 4
                        fin = "iter"
                out += (T("rt_from_vec(", ws) + blk + T(")", "")) if fin == "iter" else blk
                i = j
                continue
        out.append(t)
        i += 1
    return out


OPT = {"get", "get_mut", "first", "last", "first_mut", "last_mut", "pop", "next", "find", "position", "checked_add", "checked_sub"}
# (method, number of plain arguments before the closure, Some arm, None arm); %s: closure body / plain argument
OPTM = {"map": "Some(%B)|None", "and_then": "%B|None", "map_or": "%B|%A", "is_some_and": "%B|false", "is_none_or": "%B|true"}


def opt_maps(toks, fns=()):
    """RECV.map(|p| b)  =>  (match RECV { Some(p) => Some(b), None => None }), likewise and_then, map_or, is_some_and,
    where RECV is a call of a method that returns an Option"""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.t == "." and i + 2 < len(toks) and toks[i + 1].t in OPTM and toks[i + 2].t == "(" and out and out[-1].t == ")" and opt_call(out, fns):
            e = match_close(toks, i + 2)
            args = split_commas(toks[i + 3:e])
            args = [a for a in args if a]
            c = closure(args[-1]) if len(args) == (2 if toks[i + 1].t == "map_or" else 1) else None
            if c is not None and not any(x.t in ("return", "?", "break", "continue") for x in c[1]):
                s = chain_start(out)
                recv = out[s:]
                out = out[:s]
                pat, body = c
                for q, x in enumerate(pat):
                    if x.t == ":":
                        pat = pat[:q]
                        break
                some, none = OPTM[toks[i + 1].t].split("|")
                B = opt_maps(body, fns)

                def arm(x):
                    if x == "%B":
                        return B
                    if x == "%A":
                        return opt_maps(args[0], fns)
                    if x == "Some(%B)":
                        return T("Some(", " ") + B + T(")", "")
                    return T(x)
                out += T("(match", recv[0].ws or " ") + recv + T("{ Some(") + pat + T(") =>", "") + arm(some) + T(", None =>", "") + arm(none) + T(", })", "")
                out[-1].opt = toks[i + 1].t in ("map", "and_then")
                i = e + 1
                continue
        out.append(t)
        i += 1
    return out


def opt_call(out, fns):
    if getattr(out[-1], "opt", False):
        return True
    o = match_open(out, len(out) - 1)
    return o > 1 and out[o - 2].t == "." and (out[o - 1].t in OPT or out[o - 1].t in fns)


def block_value(toks):
    """split the tokens of a block into (statements, value expression)"""
    last = 0
    i = 0
    while i < len(toks):
        t = toks[i]
        if t.k == "p" and t.t in OPEN:
            i = match_close(toks, i) + 1
            continue
        if t.t == ";":
            last = i + 1
        i += 1
    return toks[:last], toks[last:]


EXT = {"extend": "rt_extend", "drain": "rt_drain", "sort_by": "rt_sort_by", "sort_unstable_by_key": "rt_sort_by_key",
       "sort_by_key": "rt_sort_by_key", "binary_search_by_key": "rt_binary_search_by_key"}


def methods(toks):
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.k == "id" and t.t in EXT and out and out[-1].t == "." and toks[i + 1].t == "(":
            if t.t == "drain" and txt(toks[i + 1:i + 4]) == "( .. )":
                out += T("rt_drain()", t.ws)
                i += 4
                continue
            out.append(Tok(EXT[t.t], "id", t.ws, t.line))
            i += 1
            continue
        out.append(t)
        i += 1
    return out


def small(toks):
    """Float::MIN / Float::MAX -> functions; const NAME: Float = ..; in bodies -> let;
       X[a..b] -> *rt_range(&X, a, b)"""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if txt(toks[i:i + 4]) == "& mut ( )":
            out += T("rt_unit_observer()", t.ws)
            i += 4
            continue
        if t.t == "with_capacity" and i + 1 < len(toks) and toks[i + 1].t == "(":
            # a capacity is not observable: plain size arithmetic in it is dropped
            e = match_close(toks, i + 1)
            if all(x.k == "num" or x.t in ("self", "points", "polyline", "len", ".", "(", ")", "*", "+", "result", "triangles", "nodes", "edges") for x in toks[i + 2:e]) and e > i + 3:
                out += T("with_capacity(rt_cap())", t.ws)
                i = e + 1
                continue
        if t.t == "Float" and i + 2 < len(toks) and toks[i + 1].t == "::" and toks[i + 2].t in ("MIN", "MAX"):
            out += T("Float::rt_%s()" % toks[i + 2].t.lower(), t.ws)
            i += 3
            continue
        if t.t == "const" and i + 3 < len(toks) and toks[i + 2].t == ":" and toks[i + 3].t == "Float":
            out += T("let", t.ws)
            i += 1
            continue
        if t.k == "p" and t.t == "[" and out and (out[-1].k in ("id", "num") or out[-1].t in (")", "]")) and out[-1].t not in ("return", "in", "let", "mut", "else", "match", "if"):
            e = match_close(toks, i)
            inner = toks[i + 1:e]
            d, rng = 0, None
            for q, x in enumerate(inner):
                if x.k == "p" and x.t in OPEN:
                    d += 1
                elif x.k == "p" and x.t in (")", "]", "}"):
                    d -= 1
                elif x.t == ".." and d == 0:
                    rng = q
            if rng is not None:
                st = chain_start(out)
                recv = out[st:]
                out = out[:st]
                if txt(recv[-4:]) == ". as_slice ( )":  # x.as_slice()[a..b] is x[a..b]
                    recv = recv[:-4]
                if out and out[-1].t == "&":
                    out.pop()
                lo = small(inner[:rng]) or T("0")
                hi = small(inner[rng + 1:])
                f = "rt_range" if hi else "rt_range_from"
                out += T("%s(&" % f, recv[0].ws or " ") + recv + T(",", "") + lo + ((T(",", "") + hi) if hi else []) + T(")", "")
                i = e + 1
                continue
            out += [t] + small(inner) + [toks[e]]
            i = e + 1
            continue
        out.append(t)
        i += 1
    return out


def brace_closures(toks):
    """|p| expr  ->  |p| { expr }"""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.k == "p" and t.t in ("|", "||") and out and (out[-1].t in ("(", ",", "=", "move")) and out[-1].k in ("p", "id"):
            j = i
            if t.t == "|":
                j = i + 1
                while toks[j].t != "|":
                    if toks[j].k == "p" and toks[j].t in OPEN:
                        j = match_close(toks, j)
                    j += 1
            b = j + 1
            if toks[b].t in ("{", "->"):
                out += toks[i:b]
                i = b
                continue
            e = b
            while e < len(toks) and not (toks[e].k == "p" and toks[e].t in (",", ")", ";", "]", "}")):
                if toks[e].k == "p" and toks[e].t in OPEN:
                    e = match_close(toks, e)
                e += 1
            out += toks[i:b] + T("{", " ") + brace_closures(toks[b:e]) + T("}", " ")
            i = e
            continue
        out.append(t)
        i += 1
    return out


STRICT = [False]     # loader.rs: reading a file must not panic, strings and files have trusted contracts
STR = {"lines": "rt_lines", "eq": "rt_eq", "split_whitespace": "rt_words", "is_empty": "rt_is_empty", "last_mut": "rt_last_mut",
       "to_string": "rt_to_string", "into": "rt_err", "split_ascii_whitespace": "rt_unknown", "ne": "rt_ne"}
LTYPES = [("std :: io :: Error", "RtIoErr"), ("io :: Error", "RtIoErr"), ("Box < dyn std :: error :: Error >", "RtErr"), ("Box < dyn Error >", "RtErr"),
          ("std :: fs :: File :: options ( ) . read ( true ) . open", "rt_open"), ("File :: options ( ) . read ( true ) . open", "rt_open"),
          ("std :: fs :: OpenOptions :: new ( ) . read ( true ) . open", "rt_open"), ("OpenOptions :: new ( ) . read ( true ) . open", "rt_open"),
          ("std :: fs :: File :: open", "rt_open"), ("File :: open", "rt_open"),
          ("std :: fs :: read_to_string", "rt_read_file"), ("fs :: read_to_string", "rt_read_file"),
          ("std :: io :: Read :: read_to_string", "rt_read_to_string"), ("Read :: read_to_string", "rt_read_to_string")]


def loader_names(toks):
    out, i = [], 0
    while i < len(toks):
        for a, b in LTYPES:
            n = len(a.split(" "))
            if txt(toks[i:i + n]) == a and (not out or out[-1].t not in ("::", ".")):
                out += T(b, toks[i].ws)
                i += n
                break
        else:
            t = toks[i]
            if out and out[-1].t == "." and txt(toks[i:i + 7]) in ("parse :: < Float > ( )", "parse :: < f64 > ( )"):
                out += T("rt_parse()", t.ws)
                i += 7
                continue
            if out and out[-1].t == "." and t.t in STR and i + 1 < len(toks) and toks[i + 1].t == "(":
                t = Tok(STR[t.t], "id", t.ws, t.line)
            out.append(t)
            i += 1
    return out


def str_match(toks):
    """match E { "A" | "B" => X, _ => Y }  ->  if E.rt_eq("A") || E.rt_eq("B") { X } else { Y };   a == "A"  ->  a.rt_eq("A")"""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.t in ("==", "!=") and t.k == "p" and i + 1 < len(toks):
            f = "rt_eq" if t.t == "==" else "rt_ne"
            if toks[i + 1].k == "str" and out and (out[-1].k == "id" or out[-1].t == ")"):
                out += T("." + f + "(") + [Tok(toks[i + 1].t, "str", "", t.line)] + T(")")
                i += 2
                continue
            if out and out[-1].k == "str" and toks[i + 1].k == "id" and (i + 2 == len(toks) or toks[i + 2].t not in (".", "(", "::", "[")):
                lit = out.pop()
                out += [Tok(toks[i + 1].t, "id", lit.ws, t.line)] + T("." + f + "(") + [Tok(lit.t, "str", "", t.line)] + T(")")
                i += 2
                continue
        if t.t == "match" and t.k == "id":
            b = find_block(toks, i + 1)
            e = match_close(toks, b)
            subj = toks[i + 1:b]
            arms = str_arms(toks[b + 1:e]) if len(subj) == 1 and subj[0].k == "id" else None
            if arms:
                v = subj[0].t
                for n, (lits, name, body) in enumerate(arms):
                    if n:
                        out += T("else", " ")
                    elif name is not None:
                        break
                    if lits:
                        out += T("if", t.ws if not n else " ")
                        for q, x in enumerate(lits):
                            out += T("||", " ") if q else []
                            out += T(v, " ") + T(".rt_eq(") + [Tok(x.t, "str", "", x.line)] + T(")")
                    out += T("{", " ") + (T("let %s = %s;" % (name, v), " ") if name and name != "_" else []) + str_match(body) + T("}", " ")
                i = e + 1
                continue
        out.append(t)
        i += 1
    return out


def str_arms(toks):
    """[(literals, name, body)] if every pattern is a string literal and the last one a name or _, else None"""
    arms, j = [], 0
    while j < len(toks):
        a = j
        while toks[j].t != "=>":
            if toks[j].k == "p" and toks[j].t in OPEN:
                return None
            j += 1
        pat = [x for x in toks[a:j] if x.t != "|"]
        j += 1
        if toks[j].t == "{":
            z = match_close(toks, j) + 1
            body = toks[j + 1:z - 1]
            if z < len(toks) and toks[z].t == ",":
                z += 1
        else:
            z = j
            while z < len(toks) and toks[z].t != ",":
                if toks[z].k == "p" and toks[z].t in OPEN:
                    z = match_close(toks, z)
                z += 1
            body = toks[j:z]
            z += 1
        if pat and all(x.k == "str" for x in pat):
            arms.append((pat, None, body))
        elif len(pat) == 1 and (pat[0].k == "id" or pat[0].t == "_"):
            arms.append(([], pat[0].t, body))
            return arms if z >= len(toks) and len(arms) > 1 else None
        else:
            return None
        j = z
    return None


def questions(toks):
    """E?  ->  (match E { Ok(v__) => v__, Err(e__) => return Err(rt_from(e__)) })"""
    out = []
    for t in toks:
        if t.k == "p" and t.t == "?":
            s = chain_start(out)
            recv = out[s:]
            ws = recv[0].ws
            out = out[:s] + T("(match", ws or " ") + recv + T("{ Ok(v__) => v__, Err(e__) => return Err(RtFrom::rt_from(e__)), })")
        else:
            out.append(t)
    return out


HARD = {"rt_unwrap": "rt_must", "rt_panic": "rt_no_panic", "rt_assert": "rt_holds"}


def clean(toks):
    toks = strip_attr_stmts(toks)
    if STRICT[0]:
        toks = str_match(loader_names(toks))
    toks = unwraps(small(macros(floats(strip_paths(toks)))))
    if STRICT[0]:
        toks = [Tok(HARD.get(t.t, t.t), t.k, t.ws, t.line) for t in questions(toks)]
    return toks


def last_value(toks):
    """where the value of a block (tokens between its braces) begins"""
    last, i = 0, 0
    while i < len(toks):
        t = toks[i]
        if t.k == "p" and t.t in OPEN:
            br = t.t == "{"
            i = match_close(toks, i) + 1
            if br and i < len(toks) and (toks[i].k in ("id", "num") and toks[i].t not in ("else", "as") or toks[i].t == "("):
                last = i
            continue
        i += 1
        if t.t == ";":
            last = i
    return last


def slots(toks):
    """let p: *mut T = V.as_mut_ptr(); .. &mut *p.add(i) ..   =>   let mut p = rt_slots(&mut V); .. p.take(i) .. p.finish();
    (take: i is in bounds and was not taken before: the references do not alias)"""
    names = []
    i = 0
    while i + 2 < len(toks):
        if toks[i].t == "let" and toks[i].k == "id":
            j = i + 1
            m = toks[j].t == "mut"
            j += m
            nm = toks[j].t
            j += 1
            if toks[j].t == ":" and toks[j + 1].t == "*" and toks[j + 2].t == "mut":
                while toks[j].t not in ("=", ";"):
                    j += 1
            if toks[j].t == "=":
                e = j
                while e < len(toks) and toks[e].t != ";":
                    e = match_close(toks, e) + 1 if toks[e].k == "p" and toks[e].t in OPEN else e + 1
                if txt(toks[e - 4:e]) == ". as_mut_ptr ( )":
                    names.append(nm)
                    toks = toks[:i] + T("let mut %s = rt_slots(&mut" % nm, toks[i].ws) + toks[j + 1:e - 4] + T(")", "") + toks[e:]
        i += 1
    if not names:
        return toks
    out, i = [], 0
    while i < len(toks):
        if toks[i].t == "&" and i + 6 < len(toks) and toks[i + 1].t == "mut" and toks[i + 2].t == "*" and toks[i + 3].t in names and toks[i + 4].t == "." and toks[i + 5].t == "add" and toks[i + 6].t == "(":
            out += T(toks[i + 3].t, toks[i].ws) + T(".take", "")
            i += 6
            continue
        out.append(toks[i])
        i += 1
    inner = out[1:-1]
    v = last_value(inner)
    fin = []
    for nm in names:
        fin += T("%s.finish();" % nm, "\n        ")
    return out[:1] + inner[:v] + fin + inner[v:] + out[-1:]


def body_tx(toks):
    toks = slots(toks)
    return split_or_arms(for_loops(methods(brace_closures(opt_maps(chains(clean(toks)), OPTFN)))))


# ---------------------------------------------------------------- items

def drop_vis(toks):
    out, i = [], 0
    while i < len(toks):
        if toks[i].t == "pub" and toks[i].k == "id":
            ws = toks[i].ws
            i += 1
            if toks[i].t == "(":
                i = match_close(toks, i) + 1
            toks[i].ws = ws
            continue
        out.append(toks[i])
        i += 1
    return out


def tx_struct(it):
    toks = drop_vis(clean(it["toks"]))
    kw = [t.t for t in toks[:2]]
    # find body
    j = 2
    if toks[j].t == "<":
        j = skip_angle(toks, j)
    while toks[j].t not in ("{", "(", ";"):
        j += 1
    res = T("pub", "\n") + toks[:j]
    if toks[j].t == ";":
        return res + toks[j:]
    e = match_close(toks, j)
    if it["kind"] == "enum":
        return res + toks[j:]
    fields = split_commas(toks[j + 1:e])
    res.append(toks[j])
    for f in fields:
        res += T("pub", "\n    " if toks[j].t == "{" else " ") + f + T(",", "")
    return res + [toks[e]] + toks[e + 1:]


def derives(attrs):
    out = []
    for a in attrs:
        if a[2].t == "derive":
            out += [t.t for t in a[4:-2] if t.k == "id"]
    return out


def params(head, body):
    """pattern parameters and `mut self` become lets at the start of the body"""
    j = 0
    while head[j].t != "fn":
        j += 1
    j += 2
    if head[j].t == "<":
        j = skip_angle(head, j)
    e = match_close(head, j)
    pre, ps, this = [], [], False
    for n, p in enumerate(split_commas(head[j + 1:e])):
        if p and p[0].t == "(":
            c = match_close(p, 0)
            pre += T("let", " ") + p[:c + 1] + T("= p__%d;" % n)
            p = T("p__%d" % n, p[0].ws) + p[c + 1:]
        elif txt(p) == "mut self":
            this = True
            p = T("self", p[0].ws)
        ps.append(p)
    if not pre and not this or body[0].t != "{":
        return head, body
    if this:
        body = [Tok("this__", "id", t.ws, t.line) if t.t == "self" and t.k == "id" else t for t in body]
        pre = T("let mut this__ = self;", " ") + pre
    new = []
    for n, p in enumerate(ps):
        if n:
            new += T(",", "")
        new += p
    return head[:j + 1] + new + head[e:], body[:1] + pre + body[1:]


def into_iter_params(toks):
    """impl IntoIterator<Item = X> in a signature -> Vec<X>"""
    out, i = [], 0
    while i < len(toks):
        if toks[i].t == "impl" and toks[i + 1].t == "IntoIterator" and toks[i + 2].t == "<":
            g = skip_angle(toks, i + 2)
            out += T("Vec<", toks[i].ws) + into_iter_params(toks[i + 5:g - 1]) + T(">", "")
            i = g
            continue
        out.append(toks[i])
        i += 1
    return out


def tx_fn(it, trait_impl):
    toks = it["toks"]
    bp = it["bodypos"]
    head = toks[:bp] if bp is not None else toks[:-1]
    if bp is not None:
        body = body_tx(toks[bp:])
    else:
        body = [toks[-1]]
    head = into_iter_params(strip_paths(loader_names(head) if STRICT[0] else head))
    head, body = params(head, body)
    # return type gets a name
    j = 0
    while head[j].t != "fn":
        j += 1
    j += 2
    if head[j].t == "<":
        j = skip_angle(head, j)
    j = match_close(head, j) + 1
    if j < len(head) and head[j].t == "->":
        k = j + 1
        w = k
        while w < len(head) and head[w].t != "where":
            w += 1
        ty = head[k:w]
        if txt(ty[:3]) == "impl Iterator <":
            g = skip_angle(ty, 2)
            inner = ty[3:g - 1]
            if txt(inner[:2]) == "Item =":
                ty = T("RtIter<", ty[0].ws) + inner[2:] + T(">", "")
        if txt(ty[:5]) == "Box < dyn Iterator <":
            g = skip_angle(ty, 4)
            inner = ty[5:g - 1]
            v = last_value(body[1:-1])
            val = body[1:-1][v:]
            if txt(inner[:2]) == "Item =" and txt(val[:4]) == "Box :: new (" and match_close(val, 3) == len(val) - 1:
                ty = T("RtIter<", ty[0].ws) + inner[2:] + T(">", "")
                val = val[4:-1]
                body = body[:1 + v] + (val[:-1] if val[-1].t == "," else val) + body[-1:]
        if txt(ty) != "!":
            head = head[:k] + T("(ret:") + ty + T(")", "") + head[w:]
    vis = [] if trait_impl else T("pub", it["lead"])
    if not vis:
        head[0] = Tok(head[0].t, head[0].k, it["lead"])
    else:
        head[0] = Tok(head[0].t, head[0].k, " ")
    return vis + head + body


OPTFN = set()    # functions of the crate that return an Option
ITERS = set()    # types of the crate with a method `iter`
FIELDS = {}      # struct -> {field: identifiers of its type}
CUR = [""]       # type whose impl is being translated


def option_fns(its):
    for it in its:
        if it["kind"] == "struct":
            FIELDS[it["name"]] = {m.group(1): set(re.findall(r"\w+", m.group(2))) for m in re.finditer(r"(\w+) : ([^,{}]*)", txt(it["toks"]))}
        if it["kind"] in ("impl", "trait", "mod"):
            if it["kind"] == "impl" and " for " not in it["name"] and any(c["kind"] == "fn" and c["name"] == "iter" for c in it.get("children") or []):
                ITERS.add(re.match(r"\w*", it["name"]).group(0))
            option_fns(it.get("children") or [])
        elif it["kind"] == "fn":
            h = txt(it["toks"][:it["bodypos"]] if it.get("bodypos") is not None else it["toks"])
            if re.search(r"\) -> Option <", h):
                OPTFN.add(it["name"])


def load(root):
    """list of (key, kind, tokens, group) for the whole crate; group is the impl/trait head tokens"""
    items = []
    OPTFN.clear()
    ITERS.clear()
    FIELDS.clear()
    for f in all_rs(root):
        option_fns(parse_items(lex(open(os.path.join(root, "src", f)).read())))
    for f in SRC:
        p = os.path.join(root, "src", f)
        if not os.path.exists(p):
            raise Unsupported("source file %s is gone" % f)
        walk(parse_items(lex(open(p).read())), items, f)
    for f in sorted(all_rs(root)):
        if f not in SRC:
            walk(parse_items(lex(open(os.path.join(root, "src", f)).read())), items, f)
    return items


def all_rs(root):
    b = os.path.join(root, "src")
    for d, _, fs in os.walk(b):
        for x in fs:
            if x.endswith(".rs"):
                yield os.path.relpath(os.path.join(d, x), b)


def walk(its, out, f):
    STRICT[0] = f == "loader.rs"
    for it in its:
        if any(cfg_off(a) for a in it.get("attrs", [])):
            continue
        k = it["kind"]
        if k in ("use", "macro"):
            if k == "macro":
                raise Unsupported("macro item %s in %s" % (it["name"], f))
            continue
        if k == "mod":
            if it["children"] is not None:
                walk(it["children"], out, f)
            continue
        if k in ("struct", "enum", "union"):
            d = [x for x in KEEP_DERIVE if x in derives(it["attrs"])]
            toks = tx_struct(it)
            if d == ["Clone"] and k == "struct" and all_copy(it):
                # rustc checks the extra `Copy`; it gives the derived `clone` its meaning
                d.append("Copy")
            if d:
                if "PartialEq" in d:
                    d.append("Structural")
                toks = T("#[derive(%s)]" % ", ".join(d), "\n") + toks
            out.append(dict(key=(k + " " + it["name"],), kind=k, toks=toks, group=None, file=f, line=it["line"]))
            if "Default" in derives(it["attrs"]) and k in ("struct", "enum"):
                out += derive_default(it, f)
        elif k in ("const", "static", "type"):
            out.append(dict(key=(k + " " + it["name"],), kind=k, toks=T("pub", "\n") + clean(it["toks"]), group=None, file=f, line=it["line"]))
        elif k == "fn":
            out.append(dict(key=("fn " + it["name"],), kind="fn", toks=tx_fn(it, False), group=None, file=f, line=it["line"]))
        elif k in ("trait", "impl"):
            nm = k + " " + it["name"]
            CUR[0] = re.match(r"\w*", it["name"].split(" for ")[-1]).group(0)
            if DROP_IMPL.search(it["name"]):
                continue
            head = strip_paths(it["head"])
            ti = " for " in it["name"] or k == "trait"
            item_ty = None
            if it["name"].startswith("Iterator for "):
                # an Iterator impl is analysed as an inherent impl with the same `next`
                q = next(n for n, t in enumerate(head) if t.t == "Iterator")
                head = head[:q] + head[q + 2:]
                ti, nm = False, "impl " + it["name"][len("Iterator for "):]
                item_ty = next(c["toks"][3:-1] for c in it["children"] if c["kind"] == "type")
            if k == "trait":
                head = T("pub", "\n") + head
            out.append(dict(key=(nm, ""), kind="group", toks=[], group=head, file=f, line=it["line"]))
            for c in it["children"]:
                if any(cfg_off(a) for a in c.get("attrs", [])):
                    continue
                if item_ty is not None:
                    if c["kind"] != "fn":
                        continue
                    c = dict(c, **item_sub(c, item_ty))
                if c["kind"] == "fn":
                    out.append(dict(key=(nm, "fn " + c["name"]), kind="fn", toks=tx_fn(c, ti), group=head, file=f, line=c["line"]))
                elif c["kind"] in ("const", "type"):
                    vis = [] if ti else T("pub", c["lead"])
                    out.append(dict(key=(nm, c["kind"] + " " + c["name"]), kind=c["kind"], toks=vis + clean(c["toks"]), group=head, file=f, line=c["line"]))
                else:
                    raise Unsupported("item %s in %s" % (c["kind"], nm))
        else:
            raise Unsupported("item kind " + k)


def item_sub(c, ty):
    toks, bp = [], None
    src = c["toks"]
    i = 0
    while i < len(src):
        if i == c["bodypos"]:
            bp = len(toks)
        if txt(src[i:i + 3]) == "Self :: Item":
            toks += ty
            i += 3
            continue
        toks.append(src[i])
        i += 1
    return dict(toks=toks, bodypos=bp)


COPY = {"PointId", "Point", "TriangleId", "NodeId", "usize", "Float", "bool", "Option", "<", ">"}


def all_copy(it):
    """A named-field struct whose fields are shared references or plain values."""
    toks = drop_vis(clean(it["toks"]))
    j = next((n for n, t in enumerate(toks) if t.t == "{"), None)
    if j is None:
        return False
    for x in split_commas(toks[j + 1:match_close(toks, j)]):
        ty = x[2:]
        if not ty or not (ty[0].t == "&" and ty[1].t != "mut" and all(t.t != "mut" for t in ty)
                          or all(t.t in COPY for t in ty)):
            return False
    return True


def derive_default(it, f):
    if it["kind"] == "enum":
        # the variant marked #[default]
        s = txt(it["toks"])
        m = re.search(r"# \[ default \] (\w+)", s)
        if not m:
            return []
        key = "impl Default for " + it["name"]
        head = T("impl Default for %s" % it["name"], "\n")
        return [dict(key=(key, ""), kind="group", toks=[], group=head, file=f, line=it["line"]),
                dict(key=(key, "fn default"), kind="fn", toks=T("fn default() -> (ret: Self) { Self::%s }" % m.group(1), "\n    "), group=head, file=f, line=it["line"])]
    toks = drop_vis(clean(it["toks"]))
    nm = it["name"]
    j = 2
    gen = ""
    if toks[j].t == "<":
        return []
    e = match_close(toks, j)
    if toks[j].t == "(":
        n = len(split_commas(toks[j + 1:e]))
        b = "Self(%s)" % ", ".join(["Default::default()"] * n)
    else:
        fs = [x[0].t for x in split_commas(toks[j + 1:e])]
        b = "Self { %s }" % ", ".join(x + ": Default::default()" for x in fs)
    head = T("impl Default for %s" % nm, "\n")
    key = "impl Default for " + nm
    return [dict(key=(key, ""), kind="group", toks=[], group=head, file=f, line=it["line"]),
            dict(key=(key, "fn default"), kind="fn", toks=T("fn default() -> (ret: Self) { %s }" % b, "\n    "), group=head, file=f, line=it["line"])]
