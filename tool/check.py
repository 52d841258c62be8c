"""Decides one property.  check.py PROPERTY   (environment: VERIF_TIER, VERIF_SEED)

1. translate /repo/src (transform.py), join it with the contracts in spec/ (merge.py), run Verus;
2. every obligation accepted                  -> exit 0
3. an obligation of this property is refused, or a function this property depends on is outside
   the verifier's reach -> look for an input on which the real code breaks the property:
     found                                     -> VIOLATION with that input
     none, and a contract clause of this property was refused on a function whose annotations
     all found their place                     -> VIOLATION ... no-failing-input-found
     (first, other places for the proof lines of the changed functions are tried: if the contracts
      hold with one of them                    -> exit 0, proved)
     none otherwise                            -> exit 0, reported as undecided (bounded)
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import merge
import transform
from rlex import LexError

V = os.path.dirname(HERE)
REPO = os.environ.get("P2T_DEV_REPO", "/repo")
SPEC = os.path.join(V, "spec")
T0 = time.time()

# untagged obligations of a source file belong to these properties
FILE_PROPS = {
    "points": ["C01", "C02", "C03", "C04"],
    "shape": ["C02", "C05", "C07"],
    "utils": ["C06", "C08"],
    "triangles": ["C04", "C05", "C07"],
    "front": ["C12", "C11"],
    "sweeper": ["C04", "C05", "C06", "C07", "C08", "C09", "C11", "C17", "C18"],
    "cdt": ["C01", "C02", "C03", "C09", "C10"],
    "loader": ["C13"],
}
# files whose functions a property's argument runs through
SCOPE = {
    "C01": ["points", "cdt"],
    "C02": ["points", "shape", "cdt"],
    "C03": ["points", "cdt"],
    "C12": ["front"],
    "C10": ["cdt", "triangles"],
    "C13": ["loader", "points", "cdt"],
}
ALL = ["points", "shape", "utils", "triangles", "front", "sweeper", "cdt"]


# functions whose contract rests on an assumption for the property: a bounded search stands in
PARTIAL = {"C17": ["flip_edge_event"]}

# what an untagged obligation is about, read off the predicates it names
ABOUT = [
    (r"\b(mesh|tri_ok|good3|tdist|link_is|linked2?|marked|rot_asm|push_mesh|nbr_ok)\b", ["C05", "C06"]),
    (r"\b(front|fronts|lag|front_net|mapped|isorted|keyed|af_ok|fpart|fhit|ins|retri)\b", ["C11"]),
    (r"\b(leg|legal|legal_but|dflags|ill|illp|ill_keep|dmarked|leg_\w+)\b", ["C08"]),
    (r"\b(vert|all_vert|all_used|cmono|keeps|vert_is|vert_pts|front_vert)\b", ["C18"]),
    (r"\b(cback|keeps|cback_same|madd|madd_\w+|only_in|only_\w+|onseg|onseg_\w+)\b", ["C17"]),
    (r"\b(cmono|keeps|cedge|con_es|con_add|covered|ecov|all_cov|marks|cov_\w+)\b", ["C07"]),
    (r"\b(sok|stp|frame)\b", ["C05", "C06", "C07", "C08", "C11"]),
    (r"\b(tiled|apart_all|obs_tiled)\b", ["C16"]),
    (r"\bolog\b", ["C02", "C03"]),
    (r"\bseen\b", ["C03"]),
    (r"\b(ring|added|added_all|edges_ok|ev|ev0)\b", ["C02"]),
    (r"\b(put_to|flood|pend_ok|seeds_ok|listed|cl_mark|waits|waits_at|stack_ok|mark_from|inside|outside|inn|inside_ok)\b", ["C09"]),
    (r"\b(shown|listing|coords)\b", ["C10"]),
    (r"\b(says|so_far|load_ok|point_of|holds_acc)\b", ["C13"]),
]


def about(text):
    out = []
    for pat, ps in ABOUT:
        if re.search(pat, text):
            out += ps
    return sorted(set(out))


def say(*a):
    print(*a, flush=True)


def load_cfg():
    return json.load(open(os.path.join(HERE, "props.json")))


# ------------------------------------------------------------------ Verus

class Verdict:
    def __init__(self):
        self.ran = False
        self.verified = self.errors = 0
        self.fails = []        # dicts: key, file, msg, clause, tags, kind
        self.dropped = []      # functions the verifier could not read
        self.smt_ms = 0
        self.wall = 0.0
        self.why = ""
        self.choice = {}


def tags_of(lines, a, b):
    t = []
    for ln in lines[a - 1:b]:
        c = re.findall(r"\[(C\d\d(?:[ ,]+C\d\d)*)\]", ln)
        for x in c:
            t += re.findall(r"C\d\d", x)
    return t


class Run:
    """one call of the verifier"""
    def __init__(self):
        self.ran = False
        self.verified = self.errors = self.smt_ms = 0
        self.fails, self.bad, self.why, self.wall, self.cmd = [], set(), "", 0.0, ""


def verus_once(work, res, timeout, rlimit, threads=8, many=3):
    r = Run()
    os.makedirs(work, exist_ok=True)
    gen = os.path.join(work, "gen.rs")
    open(gen, "w").write(res.text)
    t = time.time()
    cmd = ["verus", gen, "--triggers-mode", "silent", "--rlimit", str(rlimit), "--multiple-errors", str(many),
           "--num-threads", str(threads), "--output-json", "--time-expanded", "--error-format=json"]
    r.cmd = " ".join(cmd)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=work)
    except subprocess.TimeoutExpired:
        r.why = "verifier ran out of time"
        return r
    finally:
        r.wall = time.time() - t
    lines = res.text.split("\n")
    diags = []
    for ln in p.stderr.split("\n"):
        if ln.startswith("{"):
            try:
                d = json.loads(ln)
            except ValueError:
                continue
            if d.get("level") == "error" and d.get("spans"):
                diags.append(d)
    out = {}
    if "{" in p.stdout:
        try:
            out = json.loads(p.stdout[p.stdout.index("{"):])
        except ValueError:
            out = {}
    vr = out.get("verification-results", {})
    for d in diags:
        # the place in the code, and the clause that is not met
        prim = next((s for s in d["spans"] if s["is_primary"]), d["spans"][0])
        spans = []
        for s in d["spans"]:
            while s.get("expansion"):
                s = s["expansion"]["span"]
            if s["file_name"].endswith("gen.rs"):
                spans.append(s)
        if not spans:
            continue
        msg = d["message"]
        # owner: the function being verified
        key = None
        for s in ([prim] + d["spans"]):
            o = res.owner[s["line_start"] - 1] if s["file_name"].endswith("gen.rs") else None
            if o is not None:
                if msg.startswith("precondition") and s is not prim and s.get("label") and "failed precondition" in s["label"]:
                    continue
                key = o
                break
        tg = []
        clause = exact = ""
        marks = []
        for s in spans:
            lab = s.get("label") or ""
            tt = tags_of(lines, s["line_start"], s["line_end"])
            if res.owner[s["line_start"] - 1] == key:
                m = re.search(r"//~(\d+)\.(\d+)", lines[s["line_start"] - 1])
                if m:
                    marks.append((int(m.group(1)), int(m.group(2))))
            if "failed" in lab or s["is_primary"] or "not satisfied" in lab:
                if tt:
                    tg += tt
                if "failed" in lab or not clause:
                    clause = " ".join(x.strip() for x in lines[s["line_start"] - 1:s["line_end"]])[:400]
                    exact = (lines[s["line_start"] - 1][s["column_start"] - 1:s["column_end"] - 1] if s["line_start"] == s["line_end"] else clause)
        kind = "rlimit" if "rlimit" in msg.lower() or "Resource limit" in msg else "semantic"
        if kind == "semantic" and not tg:
            # .. or, failing that, what the contract of its function is about
            tg = about(exact) or sorted({p for n, o in enumerate(res.owner) if o == key and isinstance(key, tuple) for p in tags_of(lines, n + 1, n + 1)})
        r.fails.append({"exact": exact, "key": key, "msg": msg, "clause": clause, "tags": sorted(set(tg)), "kind": kind,
                        "line": spans[0]["line_start"], "text": d.get("rendered", ""), "marks": marks})
        r.bad.add(key)
    if vr and not vr.get("encountered-vir-error") and vr.get("verified", 0) + vr.get("errors", 0) > 0:
        r.ran = True
        r.verified = vr.get("verified", 0)
        r.errors = vr.get("errors", 0)
        r.smt_ms = out.get("times-ms", {}).get("smt", {}).get("total", 0)
    else:
        r.why = "verifier rejects the translated text: " + (r.fails[0]["msg"] if r.fails else p.stderr[-400:])
    return r


def balanced(text):
    return all(text.count(a) == text.count(b) for a, b in ("()", "{}", "[]"))


def run_verus(work, timeout, rlimit, choice=None):
    """returns Verdict, Result.  choice: where the proof lines of changed functions stand (merge.carry)"""
    vd = Verdict()
    drop = {}
    choice = {k: {"at": dict(v.get("at", {})), "drop": set(v.get("drop", ()))} for k, v in (choice or {}).items()}
    res = None
    for rnd in range(20):
        try:
            res = merge.assemble(REPO, SPEC, prelude=merge.PRELUDE, drop=drop, choice=choice)
        except (transform.Unsupported, LexError, Exception) as e:  # noqa
            vd.why = "translation: %s: %s" % (type(e).__name__, e)
            return vd, None
        r = verus_once(work, res, max(20, timeout - vd.wall), rlimit)
        vd.cmd = r.cmd
        vd.wall += r.wall
        vd.fails = r.fails
        vd.choice = choice
        if r.ran:
            vd.ran, vd.verified, vd.errors, vd.smt_ms = True, r.verified, r.errors, r.smt_ms
            return vd, res
        vd.first = r.fails[:3]
        vd.why = r.why
        new = {k for k in r.bad if isinstance(k, tuple) and k[-1].startswith("fn ") and drop.get(k, 0) < 3}
        if not new or vd.wall > timeout:
            return vd, res
        for k in new:
            # a proof line that no longer fits the code (say, it names a local that was renamed) goes first
            mk = {m for f in r.fails if f["key"] == k for m in f["marks"]}
            old = choice.get(k, {}).get("drop", set())
            mk = {(g, i) for g, i in mk - old if k in res.groups and balanced(res.groups[k][g][0][i].t)}
            if mk and k not in drop:
                choice.setdefault(k, {"at": {}, "drop": set()})["drop"] |= mk
            else:
                drop[k] = drop.get(k, 0) + 1
        vd.dropped = sorted(drop)
    vd.why = "verifier rejects the translated text"
    return vd, res


def repair(work, vd, res, rlimit, secs, log=lambda *a: None):
    """A change of the code may leave proof lines (asserts, lemma calls, ghost variables) of a function at a
    wrong place although its contract holds.  Try other places; contracts and invariants stay as they are.
    Returns the choice under which every function in question is accepted, or None."""
    import itertools
    from concurrent.futures import ThreadPoolExecutor
    bad = {f["key"] for f in vd.fails}
    if not bad or not all(k in res.groups for k in bad):
        return None
    end = time.time() + secs
    choice = dict(vd.choice)
    n = itertools.count()

    def attempt(cand):
        key, ch = cand
        try:
            r2 = merge.assemble(REPO, SPEC, prelude=merge.PRELUDE, choice={key: ch}, only={key})
            d = os.path.join(work, "try%d" % next(n))
            r = verus_once(d, r2, max(5, end - time.time()), rlimit, threads=2, many=12)
            shutil.rmtree(d, ignore_errors=True)
        except Exception:  # noqa
            return cand, None
        return cand, r

    def score(r):
        return (not r.ran, len(r.fails), sum(not f["marks"] for f in r.fails))

    def climb(key, ch):
        gs = res.groups[key]
        best, br = attempt((key, ch))
        seen = {freeze(ch)}
        while br is not None and (br.fails or not br.ran):
            ch = best[1]
            loud = []
            for f in br.fails:
                for m in f["marks"]:
                    if m not in loud:
                        loud.append(m)
                x = re.match(r"cannot find value `(\w+)`", f["msg"])
                if x:
                    # a ghost variable out of scope: where it is introduced matters
                    for g, q in enumerate(gs):
                        for i, t in enumerate(q[0]):
                            if re.search(r"let (?:ghost|tracked)(?: mut)? %s\b" % x.group(1), t.t) and (g, i) not in loud:
                                loud.insert(0, (g, i))
            cands = []
            for g, i in loud:
                for z in gs[g][3]:
                    cands.append({"at": {**ch["at"], g: z}, "drop": set(ch["drop"])})
                if balanced(gs[g][0][i].t) and not re.match(r"\s*let\b", gs[g][0][i].t):
                    cands.append({"at": dict(ch["at"]), "drop": ch["drop"] | {(g, i)}})
            for q in (0, 1):
                for g in range(len(gs)):
                    if g not in [x for x, _ in loud] and len(gs[g][3]) > q:
                        cands.append({"at": {**ch["at"], g: gs[g][3][q]}, "drop": set(ch["drop"])})
            cands = [c for c in cands if freeze(c) not in seen]
            better = None
            while cands and better is None and time.time() < end - 8:
                wave, cands = cands[:8], cands[8:]
                seen |= {freeze(c) for c in wave}
                with ThreadPoolExecutor(8) as ex:
                    for c, r in ex.map(attempt, [(key, c) for c in wave]):
                        if r is not None and (r.ran or r.fails) and score(r) < score(br) and (better is None or score(r) < score(better[1])):
                            better = (c, r)
            log(key[-1], "fails", score(br), "->", better and score(better[1]), better and better[0][1], "%.0fs left" % (end - time.time()))
            if better is None:
                return None
            best, br = better
        return best[1] if br is not None and br.ran else None

    for key in sorted(bad):
        c = climb(key, {"at": {}, "drop": set()})
        if c is None and choice.get(key, {}).get("drop"):
            c = climb(key, choice[key])
        if c is None:
            return None
        choice[key] = c
    return choice


def freeze(c):
    return (tuple(sorted(c["at"].items())), tuple(sorted(c["drop"])))


# ------------------------------------------------------------------ search on the real code

def build_search(work, prop):
    tgt = os.path.join(work, "target")
    env = dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE="true", P2T_REPO=REPO)
    rel = prop != "C04"   # C04 needs the checks of unchecked accesses
    b = os.path.join(tgt, "release" if rel else "debug", "p2t-search")
    err = ""
    # a change of the crate's private interfaces must not silence the checks that need the public ones only
    for feat in ([], ["--no-default-features"]):
        p = subprocess.run(["cargo", "build", "--offline", "-q"] + ["--release"] * rel + feat, cwd=os.path.join(V, "search"), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0 and os.path.exists(b):
            return b, ""
        err = err or p.stdout[-2000:]
    return None, err


def search(work, prop, secs, seed, workers=8):
    """(path of a recorded failing input or None, cases tried, non trivial cases, note)"""
    b, err = build_search(work, prop)
    if b is None:
        return None, 0, 0, "search program does not build: " + err
    end = time.time() + secs
    procs = {}
    nxt = 0
    tot = [0, 0]
    hung = crash = 0
    found = None

    def start():
        nonlocal nxt
        left = end - time.time()
        if left < 1:
            return
        o = os.path.join(work, "found.%d" % nxt)
        log = open(os.path.join(work, "log.%d" % nxt), "w")
        p = subprocess.Popen([b, prop, "%.1f" % left, str(seed), str(nxt), o], stdout=log, stderr=subprocess.DEVNULL, cwd=work)
        procs[p] = (o, log.name)
        log.close()
        nxt += 1

    for _ in range(workers):
        start()
    while procs and found is None:
        time.sleep(0.05)
        for p in list(procs):
            rc = p.poll()
            if rc is None:
                if time.time() > end + 20:
                    p.kill()
                continue
            o, lg = procs.pop(p)
            tr = re.findall(r"^TRIED (\d+) (\d+)$", open(lg).read(), re.M)
            if tr:
                tot[0] += int(tr[-1][0])
                tot[1] += int(tr[-1][1])
            os.unlink(lg)
            if rc == 10 and os.path.exists(o):
                found = o
                break
            if rc != 0:
                hung += rc == 7
                crash += rc != 7
                start()
    for p in procs:
        p.kill()
        p.wait()
    note = "%d cases did not return within 8 s, %d ended the process" % (hung, crash)
    return found, tot[0], tot[1], note


def miri(work, secs, seed):
    """C04: run generated cases on the real code under Miri"""
    b = os.path.join(work, "target", "debug", "p2t-search")
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(work, "miri"), CARGO_NET_OFFLINE="true", P2T_REPO=REPO,
               MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks")
    end = time.time() + secs
    t = 0
    procs = []
    first = True
    while (time.time() < end and t < 400) or procs:
        while len(procs) < (1 if first else 7) and time.time() < end - 5:
            cases = subprocess.run([b, "gen", "4" if first else "12", str(seed * 1000 + t)], stdout=subprocess.PIPE, text=True).stdout
            f = os.path.join(work, "m%d.txt" % t)
            open(f, "w").write(cases)
            lg = open(f + ".log", "w")
            procs.append((subprocess.Popen(["cargo", "+nightly", "miri", "run", "--offline", "-q", "--", "run", f], cwd=os.path.join(V, "search"),
                                           env=env, stdout=lg, stderr=subprocess.STDOUT), f))
            t += 1
        time.sleep(0.1)
        for x in list(procs):
            if x[0].poll() is None:
                if time.time() > end + 15:
                    x[0].kill()
                continue
            procs.remove(x)
            first = False
            log = open(x[1] + ".log").read()
            if "Undefined Behavior" in log:
                for y in procs:
                    y[0].kill()
                return x[1], log, t
        if time.time() > end and not procs:
            break
    return None, "", t


# ------------------------------------------------------------------ main

def trusted(res):
    """what the run takes for granted, read off the text given to the verifier"""
    out = []
    lines = res.text.split("\n")
    for i, ln in enumerate(lines):
        if "external_body" in ln or "assume_specification" in ln or re.search(r"\baxiom fn\b", ln) or "uninterp spec fn" in ln:
            for l2 in lines[i:i + 6]:
                m = re.search(r"fn (\w+)|assume_specification[^\[]*\[([^\]]*)\]|struct (\w+)", l2)
                if m:
                    own = res.owner[i]
                    out.append("%s (%s)" % (next(g for g in m.groups() if g), own if isinstance(own, str) else " ".join(own or ())))
                    break
    return sorted(set(out))


def file_of(res, key):
    return res.file.get(key, "sweeper") if isinstance(key, tuple) else (key.split(":")[1] if key else "sweeper")


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = load_cfg()
    pc = cfg["properties"][prop]
    work = tempfile.mkdtemp(prefix="p2tv-")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": pc["level"]}
    rc = 1
    try:
        rc = decide(prop, tier, seed, cfg, pc, work, ev)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    ev["wall_s"] = round(time.time() - T0, 2)
    ev.setdefault("violations", 0)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    sys.exit(rc)


def decide(prop, tier, seed, cfg, pc, work, ev):
    scope = SCOPE.get(prop, ALL)
    vd, res = run_verus(work, 450 if tier == "quick" else 3000, 40 if tier == "quick" else 120)
    relevant, undecided, tagged_ok = [], [], False
    reviewed = cfg["trusted_bodies"]
    ncontract = 0
    ntag = 0
    if vd.ran:
        for f in vd.fails:
            fl = file_of(res, f["key"])
            props = f["tags"] or FILE_PROPS.get(fl, [])
            # a contract that does not hold undermines every proof that uses it
            if prop in props or fl in scope:
                relevant.append(f)
        for k in vd.dropped:
            if file_of(res, k) in scope:
                undecided.append("outside the verifier's reach: " + " ".join(k))
        for k in res.pending:
            if file_of(res, k) in scope:
                undecided.append("no contract discharged yet: " + " ".join(k))
        for k in res.contracts:
            if k[-1].split()[-1] in PARTIAL.get(prop, []):
                undecided.append("rests on an assumption, bounded search stands in: %s (for %s)" % (" ".join(k), prop))
        for k in res.external:
            if merge.body_hash(res.code[k]["toks"]) not in reviewed.get(" ".join(k), []) and (file_of(res, k) in scope or prop == "C04"):
                undecided.append("trusted body changed since it was reviewed: " + " ".join(k))
        for k in res.new:
            if res.file.get(k) in scope and k[-1].startswith("fn "):
                undecided.append("function without a contract: " + " ".join(k))
        ncontract = sum(1 for k in res.contracts if res.file[k] in scope)
        ntag = sum(1 for ln in res.text.split("\n") if prop in tags_of([ln], 1, 1))
    else:
        undecided.append(vd.why)
    cov = {}
    if vd.ran:
        cov = {"obligations": vd.verified + vd.errors, "discharged": vd.verified, "checker_cmd": vd.cmd.replace(work, "WORK"),
               "trusted_base": trusted(res), "backend": "Verus / Z3", "solver_ms": vd.smt_ms,
               "functions_in_scope_with_contract": ncontract, "clauses_of_this_property": ntag,
               "failed_obligations": [{"function": " ".join(f["key"]) if isinstance(f["key"], tuple) else f["key"], "what": f["msg"], "clause": f["clause"], "tags": f["tags"]} for f in vd.fails][:40],
               "undecided": undecided[:60]}
    ev["coverage"] = cov
    ev["assumptions"] = cfg["assumptions"] + pc.get("assumptions", [])
    if vd.ran and not relevant and not undecided:
        say("%s: all obligations accepted (%d, %d of them in scope functions under contract)" % (prop, vd.verified, ncontract))
        return 0
    for f in relevant[:12]:
        say("refused: %s | %s | %s" % (" ".join(f["key"]) if isinstance(f["key"], tuple) else f["key"], f["msg"], f["clause"][:160]))
    for u in undecided[:12]:
        say("undecided:", u)
    # ---- on unchanged text the pending functions are covered by a bounded stand-in
    asis = vd.ran and not relevant and not res.changed and not res.new and not res.gone and all(u.startswith(("no contract discharged yet", "rests on an assumption")) for u in undecided)
    budget = (25 if asis else 170) if tier == "quick" else (300 if asis else 1200)
    found, n, nt, note = search(work, prop, budget, seed)
    cov.update({"evaluations": n, "distinct_nontrivial": nt, "bounded_stand_in": "random search on the real code, %s s, 8 processes; %s" % (budget, note),
                "rule": "a case is a randomly generated problem (polygon, holes, steiner points; or a script of calls), run on the real code with the oracle of the property at every observer call; non-trivial: more than 3 points or calls"})
    if n:
        cov["samples"] = samples(work, seed)
    replay = os.path.join("evidence", prop + ".replay.txt")
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    if found:
        txt = open(found).read()
        known = [k for k in cfg.get("known_findings", []) if k["property"] == prop and k["input"].strip() == txt.strip()]
        if known:
            say("KNOWN-FINDING: property=%s %s" % (prop, known[0]["what"]))
            return 0
        open(os.path.join(V, replay), "w").write(txt + obligations_text(relevant, undecided))
        ev["violations"] = 1
        say(txt)
        say("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if prop == "C04":
        f, log, k = miri(work, 25 if asis else 150, seed)
        cov["miri_runs"] = k
        if f:
            open(os.path.join(V, replay), "w").write(open(f).read() + "\n" + log + obligations_text(relevant, undecided))
            ev["violations"] = 1
            say(log[-1500:])
            say("VIOLATION property=%s replay=%s" % (prop, replay))
            return 1
    if vd.ran and relevant and not asis:
        # the search found nothing: do the contracts hold after all, with the proof lines at other places?
        ch = repair(work, vd, res, 40 if tier == "quick" else 120, min(150 if tier == "quick" else 900, (720 if tier == "quick" else 3000) - (time.time() - T0)))
        if ch:
            vd2, res2 = run_verus(work, 100 if tier == "quick" else 900, 40 if tier == "quick" else 120, ch)
            if vd2.ran and not [f for f in vd2.fails if prop in (f["tags"] or FILE_PROPS.get(file_of(res2, f["key"]), [])) or file_of(res2, f["key"]) in scope]:
                cov.update({"obligations": vd2.verified + vd2.errors, "discharged": vd2.verified, "solver_ms": vd2.smt_ms, "failed_obligations": [],
                            "proof_lines_moved": {" ".join(k): {"moved": len(v["at"]), "left_out": len(v["drop"])} for k, v in ch.items()}})
                if not undecided:
                    say("%s: all obligations accepted (%d) after proof lines were moved in %s" % (prop, vd2.verified, ", ".join(" ".join(k) for k in ch)))
                    return 0
                vd, res, relevant = vd2, res2, []
    clean = vd.ran and not res.new and not res.gone and not vd.dropped and not any(v["drop"] for v in vd.choice.values()) and all(local_edit(res, k) for k in res.changed)
    mine = [f for f in relevant if f["kind"] == "semantic" and prop in f["tags"]]
    if clean and mine and not asis:
        open(os.path.join(V, replay), "w").write("property %s\nno failing input found\n" % prop + obligations_text(mine, undecided))
        ev["violations"] = 1
        say("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay))
        return 1
    say("%s: no violation found; not decided by proof on this text (bounded search: %d cases, %s s)" % (prop, n, budget))
    return 0


LOOPS = ("while", "for", "loop", "match", "|", "||")


def local_edit(res, key):
    """the annotations of the function surely still stand where they belong: loops, matches and closures are as
    they were and the edit is small"""
    import difflib
    a, b = res.base.get(key), merge.texts(res.code[key]["toks"])
    if a is None:
        return False
    if any(a.count(x) != b.count(x) for x in LOOPS):
        return False
    n = sum(max(i2 - i1, j2 - j1) for op, i1, i2, j1, j2 in difflib.SequenceMatcher(None, a, b, autojunk=False).get_opcodes() if op != "equal")
    return n <= 60


def samples(work, seed):
    b = next((x for x in (os.path.join(work, "target", d, "p2t-search") for d in ("release", "debug")) if os.path.exists(x)), "")
    t = subprocess.run([b, "gen", "2", str(seed)], stdout=subprocess.PIPE, text=True).stdout
    return [x.strip() for x in t.split("case\n")[1:]]


def obligations_text(fails, und):
    o = "\n# obligations refused by the verifier\n"
    for f in fails[:10]:
        o += "# %s: %s\n" % (" ".join(f["key"]) if isinstance(f["key"], tuple) else f["key"], f["msg"])
        o += "".join("#   " + x + "\n" for x in f["text"].split("\n")[:40])
    for u in und[:20]:
        o += "# undecided: %s\n" % u
    return o


if __name__ == "__main__":
    main()
