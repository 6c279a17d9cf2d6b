#!/usr/bin/env python3
"""Writes MANIFEST.json: one check for every property in run.PARTS."""
import json
import os

import run

SCHED = "stateless model checking of the real code (all schedules up to a deviation bound)"
HIST = "exhaustive enumeration of operation histories on the real code"
TRUST = (" Trusts the controlled scheduler (threads switch at synchronisation operations), casacore, "
         "GSL and the reference model.")
ENUM = "exhaustive enumeration of bounded inputs through the real codec against an independent oracle"
INFO = {
    "C01": (SCHED + " + " + HIST, "All schedules within a deviation bound of small writing histories and all operation "
            "sequences up to a depth over an alphabet, each verified by reopening the table and by an independent reader "
            "of the file." + TRUST),
    "C02": (SCHED + " + " + HIST, "All schedules and histories with reads of buffered, queued, being encoded and stored "
            "blocks, each read compared with a reference map." + TRUST),
    "C03": (SCHED, "Every schedule within the bound ends: deadlock, lost wakeup, livelock and surviving threads are "
            "detected by the scheduler." + TRUST),
    "C04": ("stateless model checking under AddressSanitizer/UBSan and ThreadSanitizer (hand-over between threads "
            "invisible to TSan, so the happens-before relation is that of the program)",
            "Each explored execution is checked by the sanitizers; memory that is read uninitialised is not detected." + TRUST),
    "C05": ("exhaustive enumeration of configurations and schedules; bytes of the files compared",
            "All configurations of a grid and schedules within a deviation bound; the files of runs under different "
            "schedules and thread counts are compared byte by byte (static seed) or factor by factor." + TRUST),
    "C06": (SCHED + " + " + HIST, "All schedules and histories over two and three columns of one manager, including removal "
            "of a column." + TRUST),
    "C07": (ENUM, "All blocks over a value alphabet for several shapes, every level and boundary, scale differences and "
            "outliers, for both extremes of the dither values (each component then takes both of its possible outcomes); "
            "the oracle derives the scale from the stored factors and uses independent levels. AF is only required to keep "
            "antennas of which the gain exceeds 1e-5 of the largest."),
    "C08": (ENUM, "All assignments of six kinds of non-finite values and finite values to small blocks, all masks of blocks of "
            "up to 12 visibilities and all combinations of flagged antennas, channels and polarizations."),
    "C09": (ENUM, "For each level and a grid of values between the levels the exact number of dither values that give the upper "
            "level, found by bisection and tested for monotonicity; for some values all 2^31 dither values. Blocks with equal "
            "values are compared pairwise under all schedules within a deviation bound, over threads, columns and sessions."),
    "C10": (ENUM, "Every level, the boundary between each two levels, all finite floats for some (thorough: all) quantizers, all "
            "positions in dictionaries of 2..520 and several larger sizes, for each of the search functions."),
    "C11": (ENUM, "All symbol counts up to 200 with every value in every position of the packing group, against an independent "
            "packer, with buffers against inaccessible pages."),
    "C12": (ENUM, "All weight blocks over an alphabet for nine shapes, and every level and level boundary for several scales."),
    "C13": ("exhaustive enumeration of configurations, both directions, against an independent reader and writer of the format",
            "All configurations of a grid of column sets, normalizations, distributions, bit rates and shapes; files larger than "
            "4 GB are made sparse."),
    "C14": (HIST, "All settings and all chains of reopening, cloning, copying and renaming up to a depth; after each step the "
            "settings and all values are compared." + TRUST),
    "C15": (HIST, "Every invalid request of an alphabet at several points of a history and all listed kinds of damage of the "
            "header (every truncation); arbitrary corruption of other header fields is outside the bounds." + TRUST),
    "C16": ("exhaustive enumeration of crash points (every prefix of the recorded writes, torn writes) of all histories and schedules within bounds, on the real code",
            "Every write to the file is recorded while histories and schedules are explored; the file after every prefix "
            "(and torn writes at several or all bytes) is opened with the real code, read, compared and continued; the "
            "reconstruction is validated by really ending the process within the writes. A crash of the operating system "
            "(writes that are reordered or lost) is outside the bounds, as is a crash while a column is removed."),
    "C17": ("exhaustive fault injection: every system call on the file of all histories within bounds fails in each applicable way, on the real code",
            "Each run is a process of its own in which exactly one call fails (once, or with all later ones of its kind) or is "
            "short; errors reported by close() are outside the bounds."),
    "C18": ("exhaustive enumeration of measurement sets, option lists and sequences of tool runs; the real main() runs in a "
            "process of its own and the set is compared before and after",
            "All block structures over three baselines, all flag patterns of eight visibilities, all option lists up to length 3 "
            "over 25 options, all bit rates, storage managers and undefined or differing cells. Values are compared with the "
            "levels and factors that an independent reader finds in the file; after -reorder (encoded twice) the bound is wider. "
            "Empty sets and a crash of the tool halfway are outside the bounds."),
    "C19": ("exhaustive enumeration of compressed sets and sequences of tool runs; the real main() runs in a process of its own "
            "and the set is compared before and after",
            "All combinations of absent, ordinary and compressed columns over up to three managers, settings, shapes, partially "
            "written blocks; values have to be identical. Empty sets are outside the bounds."),
    "C20": (HIST, "All sequences of appending, removing and rewriting rows and reopening up to a depth, under early and "
            "late encoding." + TRUST),
    "C21": (SCHED + " + " + HIST, "Number of blocks handed over minus written observed at every step, for starved and eager encoder "
            "threads, all thread counts up to 16 and all schedules of small histories up to a deviation bound." + TRUST),
    "C22": ("exhaustive enumeration of operation sequences and explicit-state search over the states of two containers, on "
            "the real code against std::vector", "All sequences up to a depth over 175 operations and every operation in every "
            "reachable combination of sizes, capacities and allocators within bounds, each also with failing allocations. "
            "Self-insertion of ranges and element types that are not trivially copyable are outside the bounds."),
}


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(run.HERE, "properties.jsonl"))]
    checks = []
    for p in ids:
        if p not in run.PARTS:
            continue
        technique, note = INFO[p]
        checks.append({
            "property": p,
            "quick_cmd": "python3 run.py %s quick" % p,
            "thorough_cmd": "python3 run.py %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": technique,
            "level": "model_checking",
            "level_note": note,
        })
    manifest = {
        "version": 1,
        "setup_cmd": "python3 build.py plain asan tsan",
        "checks": checks,
        "not_applicable": [{"property": p, "reason": "check not built yet"} for p in ids if p not in run.PARTS],
        "notes": "No hooks in /repo: the machinery interposes on pthread and file functions at link time. "
                 "A check builds the library, the tools and itself from /repo's working tree into /verif/build.",
    }
    with open(os.path.join(run.HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
