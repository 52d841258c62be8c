"""development aid: writes tool/props.json"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import merge
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROOF = sys.argv[1:]
r = merge.assemble("/repo", V + "/spec", prelude=merge.PRELUDE)
p = {
    "properties": {("C%02d" % i): {"level": "proof" if "C%02d" % i in PROOF else "exploration"} for i in list(range(1, 14)) + [16, 17, 18]},
    "trusted_bodies": {" ".join(k): [merge.body_hash(r.code[k]["toks"])] for k in r.external},
    "known_findings": [],
    "assumptions": [
        "coordinates are finite, not +-f64::MAX, and the margin around the bounding box does not overflow; a Float is identified with the real number it stands for; of + - * on floats only monotonicity facts are assumed, no exactness",
        "robust::orient2d and robust::incircle return the exact sign (documented guarantee of that crate; not checked here, and false when intermediate results overflow or underflow)",
        "std: Vec, Option, slices, sort_by (stable sort by the given order), sort_by_key, binary_search_by_key, mem::take behave as documented; iterators are consumed eagerly in the translated text",
        "partial correctness: a panic or a run that does not end satisfies every contract (C14 is not claimed)",
        "fewer than 2^32 - 15 points, fewer than usize::MAX triangles and front nodes; indices do not wrap",
        "the translation (tool/transform.py) keeps the meaning of the source; its rules are listed in DESIGN.md",
        "an Observer does not change the mesh (its methods take &Sweeper)",
    ],
}
p["properties"]["C13"]["assumptions"] = [
    "str::lines, str::split_whitespace, str::parse::<f64>, string equality, File::open and Read::read_to_string are taken as given: a file has a text, a text has lines, a line has words, a word is a number or not",
    "the file has at most 2^32 - 16 lines",
]
p["properties"]["C17"]["assumptions"] = [
    "quiet(): edge_event_process, when flip_edge_event calls it for a segment other than the edge that is being inserted, adds no mark off that edge (stated at that call with an assume; the constant quiet occurs in no contract of another property); the bounded search of this check looks for a run where it does",
]
json.dump(p, open(V + "/tool/props.json", "w"), indent=1)
