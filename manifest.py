#!/usr/bin/env python3
# Writes MANIFEST.json.
import json, os
here = os.path.dirname(os.path.abspath(__file__))
model = "online monitor of the real parser against an independent reference model"
T = {
 "C01": ("runtime monitoring under hostile workloads: panic, watchdog, allocation and time monitors on every entry point", "every entry point answered for everything tried, in bounded time and memory; a death of the process is attributed to a case by a journal which survives it"),
 "C02": ("online monitor: cross-check of every entry point's answer for the same string", "the entry points agree on everything tried, which includes all strings of up to 3 characters of the alphabet"),
 "C03": (model + ": validity, level, feature, refusal", "agreement with a grammar written from the specification and the documented deviations; strings the specification leaves open are not judged"),
 "C04": (model + ": all four bounds and calendar days, exhaustive over years, months and days", "every day of every month of every year from -9999 to 9999, and every day a month lacks, in both tiers"),
 "C05": (model + ": instants computed by integer arithmetic", "sampled instants and offsets, every hour, minute, second and offset at boundaries"),
 "C06": ("online metamorphic monitor: interval against its two sides parsed alone, and the reference model", "the oracle is the library's own answer for a side, which C04, C05, C09 decide"),
 "C07": (model + ": open and unknown marks on each of the four dates", "marks compared for every kind of interval, set and plain expression"),
 "C08": (model + ": months of seasons and groupings, every year and code", "exhaustive over years and codes for numbers, sampled over spellings"),
 "C09": (model + ": bounds of masks as the least and greatest existing date, found by enumeration of the fillings", "all masks in the thorough tier; a mask's fillings are enumerated by the model"),
 "C10": (model + ": uncertain and approximate flags of each date; and bounds against the string without qualifiers", "all qualifier placements on sampled dates"),
 "C11": (model + ": big-integer arithmetic on year numbers", "exhaustive over small mantissas, exponents and digits, sampled and hostile beyond"),
 "C12": (model + ": span and inclusivity of sets; and metamorphic monitor: members in another order", "every set of up to three members of a pool, sampled sets of up to seven members"),
 "C13": ("online invariant monitor over every field of every result", "invariants between fields, whatever the string"),
 "C14": ("online monitor: comparisons against bounds read from the operands; order laws on triples", "every relation of the bounds of two expressions at boundaries, sampled beyond"),
 "C15": ("online monitor: derived ranges against the parsed bounds", "every feature and year, errors included"),
 "C16": ("online monitor: encode, decode, compare and re-encode; token check of the JSON", "parsed results and results made by hand"),
 "C17": ("Go race detector and outcome monitors over cold concurrent processes; offline comparison of answers between processes, histories, zones, environments and clocks; memory-disjointness monitor of results", "the schedules which occurred, as counted in the evidence"),
 "C18": (model + ": the kind of each error; and table monitor of the error constructors and predicates", "kinds exclude each other, texts name the string"),
 "C19": ("monitored executions of the built tools and WebAssembly modules against the library", "whole outputs, exit status and error streams compared"),
 "C20": ("monitored executions of the built server under concurrent clients, and of the served page with injected delays and faults", "the page runs in a stand-in for a browser"),
 "C21": ("online monitor: flag operations against a bit-vector model, exhaustive", "all pairs of the ten bits, and the helpers on tables and hostile strings"),
 "C22": ("online monitor against the reference calendar, exhaustive over years and months", "every year from -9999 to 9999 and beyond, months in and out of range"),
 "C23": ("online monitor: set and get against integer arithmetic", "instants across the range, all zones tried"),
 "C24": ("online metamorphic monitor: containment, adjacency and equality of bounds", "relations between expressions, independent of the reference model"),
 "C25": ("online monitor of the exported functions of package common against the reference calendar and model", "every month and (thorough) every day of every year from -9999 to 9999, sampled text and expressions"),
}
trust = "; trusts the Go toolchain and, where one is named, the reference model in harness/ref (self-checked against package time)"
checks = []
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)["id"]
    t, n = T[p]
    checks.append({"property": p, "quick_cmd": "./check.sh " + p, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p,
                   "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "exploration", "level_note": n + trust})
m = {"version": 1, "setup_cmd": "./check.sh --setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks: everything is observed through the exported API, the built programs and the race detector."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
