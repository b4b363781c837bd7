#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and the properties in properties.jsonl."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BOTH = "Run against builds of the library with and without debug assertions."
TECH = {
    "C01": "property-based testing: generated requests, verified by an independent RFC 5849 server model",
    "C02": "property-based testing: decode-and-compare against the RFC 5849 key, pair-count and dependence relations",
    "C03": "property-based testing: generated requests x key set, verification under the public key by an independent RSA",
    "C04": "property-based testing: strict header grammar and exact expected items",
    "C05": "property-based testing: decode round-trip plus verification by the server model from the string alone",
    "C06": "property-based testing: decode round-trip and character-set invariant over unsigned encodings",
    "C07": "stateful property-based testing: operation sequences on parameter lists against a sorted-multiset model",
    "C08": "property-based testing: call-trace invariants with an independent recording serializer",
    "C09": "property-based testing over programs: generated struct definitions compiled and compared with a model",
    "C10": "fuzzing of derive input: generated faulty items, compiler diagnostics mapped to items",
    "C11": "stateful property-based testing: builder operation histories against a model of the settings",
    "C12": "differential property-based testing over all signing entry points",
    "C13": "stateful property-based testing: call histories over threads, builders and forked processes, collision and entropy statistics",
    "C14": "property-based testing: recording signature methods, calls reassembled against the reference base string",
    "C15": "differential property-based testing: Either against the chosen method, recorded call traces",
    "C16": "property-based testing: leak search for secret fragments in Debug output",
    "C17": "property-based testing and fault injection: serde round-trips over formats and mutated responses",
    "C18": "property-based testing: composed conversions against a four-string model, stateful mapping functions",
    "C19": "property-based testing: no-panic fuzzing and injected misuse in both build profiles",
    "C20": "fault injection: every failing position of sinks, values and URIs enumerated per generated request",
    "C21": "differential property-based testing across feature sets and build profiles through a probe program",
    "C22": "metamorphic property-based testing: same text, different writes, types and containers; every scalar value",
    "C23": "stateful property-based testing: forked serializer histories; concurrent signing against sequential results",
    "C24": "metamorphic property-based testing: random plain/encoded mixtures give identical output and signatures",
    "C25": "fuzzing with AddressSanitizer and under the Miri interpreter: structured inputs, lying values and failing sinks, UTF-8-checking sinks",
    "C26": "differential property-based testing across platforms interpreted by Miri (32-bit, big-endian)",
    "C27": "stateful model-based testing: generated histories of client applications against a reference RFC 5849 server",
}
ONE = {"C09", "C10", "C13", "C16", "C17", "C18", "C21", "C25", "C26"}
NA = {}
NOTE = ("Searches generated inputs (and systematic ones) with a fixed seed; shows absence of violations only for what was "
        "generated. Trusts rustc/cargo, proptest and the reference model in /verif/harness, which is checked against RFC vectors. ")


def main():
    with open(os.path.join(ROOT, "properties.jsonl")) as f:
        ids = [json.loads(line)["id"] for line in f]
    checks, na = [], []
    for i in ids:
        if not os.path.exists(os.path.join(ROOT, "harness/src/bin/%s.rs" % i.lower())):
            na.append(dict(property=i, reason=NA.get(i, "its check is not built yet")))
            continue
        checks.append(dict(
            property=i,
            quick_cmd="python3 check.py %s quick" % i,
            thorough_cmd="python3 check.py %s thorough" % i,
            technique=TECH[i],
            level="exploration",
            level_note=NOTE + ("" if i in ONE else BOTH),
        ))
    doc = dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=na,
               notes="No hooks: every check uses the public API. Generators, oracles and bounds are described in DESIGN.md.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


main()
