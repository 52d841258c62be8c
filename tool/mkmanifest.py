"""development aid: writes MANIFEST.json from tool/props.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(V + "/tool/props.json"))
T = "contract-based deductive verification of /repo's Rust code with Verus (Z3)"
P = "All obligations of the functions the property depends on are discharged by Verus from contracts on the code translated mechanically from /repo in the same run; assumptions and trusted base are listed in the evidence and DESIGN.md. A refused obligation is followed by a search for a failing input on the real code."
X = "All functions the property depends on are under contract and discharged by Verus, but one contract rests on an assumption stated in the text (listed in the evidence and in DESIGN.md); a bounded random search on the real code stands in for it on every run, which proves nothing."
m = {
    "version": 1,
    "setup_cmd": "verus --version && P2T_REPO=/repo cargo build --offline -q --manifest-path search/Cargo.toml --target-dir /tmp/p2tv-setup && rm -rf /tmp/p2tv-setup",
    "checks": [], "not_applicable": [
        {"property": "C14", "reason": "termination and absence of panics on valid input: needs a decreasing measure over planar subdivisions and the validity of the polygon as an invariant of the sweep; no contract within reach states it, the contracts here are partial correctness"},
        {"property": "C15", "reason": "exact tiling of the polygon needs the Jordan curve theorem for unbounded polygons over the mesh; no contract within reach expresses it (C05, C06, C07, C09 and C16 are its ingredients; that no two result triangles overlap is part of C16)"},
    ],
    "notes": "C01..C13, C16..C18: see DESIGN.md. Genuine defects found and repaired: known-findings.txt.",
}
for p, d in c["properties"].items():
    pr = d["level"] == "proof"
    m["checks"].append({"property": p, "quick_cmd": "python3 tool/check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 tool/check.py " + p,
                        "technique": T + ("" if pr else "; bounded stand-in for one assumption"), "level": d["level"], "level_note": P if pr else X})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
