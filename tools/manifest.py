#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contracts on the real code, every generated obligation discharged by Kani/CBMC for all inputs of each contract instance"
VERUS = ("; functions extracted mechanically on every run and verified by Verus against their contracts, for every value "
         "type and component key")
TRUST = (" Trusted: Kani, CBMC, rustc, the harness crate's view functions and key shapes. Discharged per key shape "
         "(each storage kind, nesting of them, bitset widths), for every state; panics abort. Instances named "
         "sparse/pair (iterators of large composite keys) are bounded to states with at most two entries.")
VTRUST = (" Second layer, Verus: the functions named in the evidence, without bound; trusted there: the extraction (DESIGN.md "
          "says what it drops), Z3, NoneBucket::insert and retain of nested storages (both discharged by Kani), "
          "contracts assumed of std. Its failure alone is an alarm only if definite (DESIGN.md).")
import sys
sys.path.insert(0, os.path.join(HERE, "verus"))
sys.dont_write_bytecode = True
from prove import PROPERTIES
NOTES = {
    "C01": "Postconditions of every point operation of Map from every reachable state, frame included (every other key).",
    "C02": "Postconditions of every point operation of Set from every reachable state, frame included.",
    "C03": "len and is_empty against the view, in every state and after every kind of operation.",
    "C04": "The whole sequence yielded by every map iterator, from every state, and the frame of mutable iteration.",
    "C05": "The whole sequence yielded by every set iterator, from every state.",
    "C06": "Every interleaving of front and back steps, clones, size bounds and exhaustion of every double-ended iterator.",
    "C07": "Calls, order, arguments and result of retain for every state and every predicate.",
    "C08": "Every method of Entry, OccupiedEntry and VacantEntry from every state, frame included.",
    "C09": "Ghost ownership of every value through every operation, and CBMC's memory safety obligations for all of it, "
           "the unsafe code of option_bucket included. Stacked/Tree Borrows aliasing is outside the verifier.",
    "C10": "Equality and clone against the view, for every pair of states.",
    "C11": "Every comparison operator against the lexicographic order of the views, for every pair (triple where transitive); "
           "the data fed to a hasher.",
    "C12": "Bitset and plain layout answer alike on every operation; raw round trip and from_raw for every integer.",
    "C13": "The sequence yielded by intersection for every pair of states, in every consumption.",
    "C14": "from_iter and from against insertion one by one. Bounded: at most four items, with any keys, values and repetitions.",
    "C15": "Serialize and Deserialize against a format whose answers are quantified over. Bounded: at most four items read.",
    "C16": "Point operations, entries, retain, iteration and construction for dynamic keys, against an assumed contract of "
           "hashbrown. Bounded: at most three entries.",
}
NA = {
    "C17": "Kani compiles panics as aborts and Verus has no unwinding: no installed contract verifier can express the "
           "state after a caught panic.",
    "C18": "The subject is a procedural macro's diagnostics at compile time; no contract verifier reasons about rustc's "
           "acceptance of a program.",
}
checks = [dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 check.py " + p,
               evidence_file="evidence/%s.json" % p, technique=TECH + (VERUS if p in PROPERTIES else ""), level="proof",
               level_note=n + TRUST + (VTRUST if p in PROPERTIES else ""))
          for p, n in sorted(NOTES.items())]
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks,
         not_applicable=[dict(property=p, reason=r) for p, r in sorted(NA.items())],
         notes="See DESIGN.md. known-findings.txt lists what was repaired in /repo.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
