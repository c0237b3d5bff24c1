"""What the driver knows about each property. Titles come from properties.jsonl."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TITLES = {}
for l in open(os.path.join(ROOT, "properties.jsonl")):
    if l.strip():
        d = json.loads(l); TITLES[d["id"]] = d["title"]
BASE = ["base"]; HS = ["hs"]; BOTH = ["base", "hs"]
UNITS = {"P01": BASE, "P02": BASE, "P03": BASE, "P04": BASE, "P05": BASE, "P06": BOTH + ["asy"], "P07": BASE, "P08": BASE, "P09": BASE, "P10": BASE, "P11": BASE, "P12": BASE, "P13": BASE, "P14": BASE, "P15": BASE, "P16": BASE, "P17": BASE, "P18": BOTH, "P19": ["hdr"], "P26": ["hdr"], "P30": ["pair", "hs"], "P27": ["http", "asy"], "P20": HS + ["asy"], "P21": HS + ["http", "asy"], "P22": HS + ["asy"], "P23": HS + ["http", "asy"], "P25": HS + ["asy"], "P24": HS + ["http", "asy"], "P28": BOTH + ["asy"], "P29": BOTH, "P34": HS + ["asy"], "P35": HS + ["asy", "hdr"], "P36": HS + ["asy"], "P37": HS + ["asy"]}
NOTES = {}
ASSUME = {}
THEOREMS = {
 "P01": ["lemma_header_bits"],
 "P02": ["lemma_hdr_bytes", "lemma_flags"],
 "P03": ["theorem_header_roundtrip", "theorem_frame_roundtrip"],
 "P04": ["lemma_mask_twice", "lemma_masked_split", "lemma_masked_prefix"],
 "P09": ["theorem_rx_keeps"],
 "P12": ["theorem_rx_invariant", "theorem_rx_keeps", "theorem_rx_not_refused"],
 "P13": ["theorem_cx_invariant", "theorem_cx_keeps"],
 "P14": ["theorem_chunking", "theorem_prefix_stable", "theorem_cx_chunking"],
 "P19": ["theorem_key_roundtrip"],
 "P26": ["theorem_ext_parsed_wf", "theorem_ext_roundtrip", "theorem_ext_trimmed", "theorem_list_roundtrip", "theorem_extensions_roundtrip", "theorem_protocols_roundtrip", "theorem_protocols_survive", "theorem_version_roundtrip"],
 "P20": ["theorem_refusal"], "P25": ["theorem_endpoint"],
 "P27": ["theorem_one_head", "theorem_head_prefix"],
 "P15": ["theorem_rx_retained", "theorem_rx_retained_acc", "theorem_rx_not_refused", "theorem_cx_invariant"],
}
INFO = {p: {"title": TITLES.get(p, p), "units": u, "level": "proof", "note": NOTES.get(p, ""), "assumptions": ASSUME.get(p, [])} for p, u in UNITS.items()}
NA = {
 "P31": "unpredictability of a masking key is a statement about the distribution of an entropy source (rand::thread_rng); a contract can say that a fresh key is drawn per frame (P04, P06) but no pre/postcondition can express that its value cannot be predicted",
 "P32": "independence of concurrent connections needs a semantics of threads and schedules; the library shares no mutable state between connections (no static, no lock, no unsafe), so there is no function whose contract could carry it, and Verus as used here is sequential",
 "P33": "that a waiting call eventually returns is a liveness property of the operating system's sockets and of the futures executor, outside partial-correctness contracts; termination of each call's own loops is what the contracts give",
}
