#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl")) if l.strip()]

TECH = {
    "C01": "model-based history testing against a map (proptest), shrinking",
    "C02": "generated contents and histories against an independent reference trie and a second library",
    "C03": "generated handle histories; every hash recomputed from the node structure by an independent encoder",
    "C04": "generated histories over clones and held sub-tries, one model per handle",
    "C05": "generated tries; enumeration compared with the reference order",
    "C06": "metamorphic: pairs of generated histories with equal contents, canonical-structure oracle",
    "C07": "generated tries and replaced node sets against the reference trie",
    "C08": "generated tries and key collections; subset answers against the full trie's model",
    "C09": "generated tries and key collections against an independently pruned reference trie",
    "C10": "differential: batch extraction against single extractions on generated collections",
    "C11": "differential lock-step histories on the subset and the full trie",
    "C12": "generated partial tries and operations; refusal decided by the reference model",
    "C13": "model-based operation chains against a list of nibbles",
    "C14": "generated inputs against digit arithmetic on the source",
    "C15": "generated sequences and byte strings against the yellow-paper definition; round trip",
    "C16": "generated out-of-range arguments in builds with and without overflow checks",
    "C17": "generated values of every accepted type against own big-endian arithmetic",
    "C18": "round-trip testing of generated tries followed by a generated continuation",
    "C19": "generated trie pairs against an independent lock-step walk",
    "C20": "generated tries and keys against an independent lookup path",
    "C21": "generated tries against an independent node count",
    "C22": "generated trie pairs against the nodes above the reported key",
    "C23": "generated malformed inputs against the details of the error",
    "C24": "generated thread programs on a shared trie against the sequential model",
    "C25": "metamorphic: generated operation lists with logging off and on",
    "C26": "generated printable values and generated writer failures",
    "C28": "generated interruptions of operations against the set of states that may be left",
    "C27": "generated ways of assembling a trie against the reference trie and the trie built by inserts",
}
NOTE = ("Generated-input search with a fixed number of cases per tier and seed: "
        "it shows the property on the cases run and finds counterexamples, it does not exclude others.")
EXTRA = {"C16": " Both builds are run on every check."}

checks = []
for p in props:
    i = p["id"]
    checks.append(dict(
        property=i,
        quick_cmd=f"bash /verif/check.sh {i}",
        thorough_cmd=f"VERIF_TIER=thorough bash /verif/check.sh {i}",
        evidence_file=f"evidence/{i}.json",
        technique=TECH[i],
        level="exploration",
        level_note=NOTE + EXTRA.get(i, "")))
json.dump(dict(
    version=1,
    setup_cmd="bash /verif/build.sh checked release",
    checks=checks,
    not_applicable=[],
    notes="One Rust crate in harness/ with a path dependency on /repo; no hooks in /repo. "
          "check.sh rebuilds it against /repo's working tree. See DESIGN.md; repaired defects are in known-findings.txt."),
    open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
