#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
sys.dont_write_bytecode = True
import registry
NOTE = ("TLC checks the rules of the specification exhaustively within the constants reported in the evidence; "
        "the code is bound to it by running generated cases in the real crate and letting TLC judge every recorded answer. "
        "Trusted: TLC, the executor's projection of the public API, the encoders in lib/ that build input files. ")
T = {
 "C01": ("TLA+ SigMerge model checked with TLC (histories of trees); TLC-generated histories replayed into the crate, listings validated by TLC (TraceSession)", ""),
 "C02": ("TLA+ Archive model (crashing writer, losses) checked with TLC; generated archives opened with the crate, every answer validated by TLC (TraceSession)", ""),
 "C03": ("TLA+ Archive/Collections model checked with TLC; behaviours replayed and random listings validated by TLC (TraceColl)", "Listings no writer can produce (two sets ending at the same instant, a set ending before it starts) are only checked for sanity."),
 "C04": ("TLA+ MCAssembly (all arrival orders) checked with TLC; all permutations of enumerated listings run in the crate and compared by TLC (TraceColl, TraceSession)", ""),
 "C05": ("TLA+ grammar (Naming) checked with TLC; grammar-derived and mutated names validated by TLC (TraceColl)", "Volume numbers above 2^64-1 are outside the property."),
 "C06": ("TLA+ Collections/MCAssembly checked with TLC; enumerated and random listings validated by TLC (TraceColl)", ""),
 "C07": ("TLA+ manifest writer and reader (ManifestText) checked with TLC for round trip; generated manifests parsed by the crate, validated by TLC (TraceManifest)", ""),
 "C08": ("TLA+ Packing model (all packings) checked with TLC; enumerated packings replayed, lookups validated by TLC (TraceManifest)", ""),
 "C09": ("TLA+ line-level reader with error classes (ManifestText); all truncations and damages validated by TLC (TraceManifest)", ""),
 "C10": ("TLA+ Session model checked with TLC; its behaviours replayed as request sequences, validated by TLC (TraceSession)", ""),
 "C11": ("TLA+ Session model checked with TLC; recorded backend calls validated by TLC (TraceSession)", ""),
 "C12": ("TLA+ Session model with faults checked with TLC; fault sequences replayed, validated by TLC (TraceSession)", ""),
 "C13": ("TLA+ MCDamage model (every history, every place of damage) checked with TLC, planted mistakes refuted; damaged signature files read by the crate, TLC looks for an admissible remainder that explains every answer (TraceDamage)", ""),
 "C14": ("TLA+ calendar (Civil) checked with TLC; parsing and display of the crate validated by TLC (TraceTime)", ""),
 "C15": ("TLA+ MCSize model (signing a file block by block) checked with TLC, planted mistakes refuted; entries in every tar encoding validated by TLC (TraceSession)", ""),
 "C16": ("TLA+ Render model (alignment, readability of permissions) checked with TLC, planted mistakes refuted; texts recorded from the crate in eleven time zones validated by TLC (TraceRender)", "Widths of wide or combining characters are left open."),
 "C17": ("TLA+ Iter model (nested and indexed enumerations) checked with TLC, planted mistakes refuted; TLC-generated and random programs of enumeration steps run in the crate, every answer validated by TLC (TraceSession)", ""),
 "C18": ("TLA+ Session model; same archives through different backends and read sizes validated by TLC (TraceSession)", ""),
}
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "cd harness && RUSTUP_TOOLCHAIN=stable cargo build --offline --locked --target-dir ../target",
     "checks": [], "not_applicable": []}
for p in props:
    if p in registry.CHECKS:
        m["checks"].append({"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "./check " + p + " --thorough",
                            "evidence_file": "evidence/%s.json" % p, "technique": T[p][0],
                            "level": "model_checking", "level_note": NOTE + T[p][1]})
    else:
        m["not_applicable"].append({"property": p, "reason": "check under construction"})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
