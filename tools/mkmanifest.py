#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
T = "deterministic simulation with fault injection: seeded search over "
C = {
 "C01": ("interleavings, call histories, refused allocations, stalls and deaths of callers; every answer compared with the same call in a pristine process", "exploration",
         "Seeded exploration, not exhaustive. Trusts the simulator's serialisation of threads (real threads, one at a time, switched at every instrumented basic-block edge, memory access and allocation of h3-rs, hence sequentially consistent: weak-memory reorderings are not modelled) and that state of the library lives in its statics, thread-locals or heap."),
 "C02": ("allocation failures (by position, from a position on, at random, nearly full heap) with and without concurrent callers; answers compared with the same call with ample memory", "fault_enumeration",
         "Failure positions are drawn at random from the counted allocations of each call, so every position of short calls is hit many times; inputs are sampled. Assumes allocation goes through the global allocator."),
 "C03": ("call histories, refused allocations, abandoned enumerations and panicking consumers under an accounting allocator", "exploration",
         "Seeded exploration. Bounds the peak by a generous constant times the largest answer and requires that repeating call shapes retains nothing more than the first pass did (a one-time cache is tolerated). Heap use is counted at the allocator, stack use at the instrumented edges."),
 "C04": ("consumption patterns, hand-overs between threads, interleavings, panicking consumers and killed callers of child enumerations; deliveries checked against a digit-arithmetic model", "exploration",
         "Seeded exploration over all resolutions; enumerations above a few thousand children are consumed partially (beginning, middle, end)."),
 "C05": ("points at which the optimistic disk traversal is cut short (refused allocation or pentagon), stalls, deaths and interleavings; disks compared with breadth-first search over an independent geometric grid", "exploration",
         "Seeded exploration, radii up to 26, concentrated on pentagon surroundings at all resolutions. The reference grid is computed from cell-centre geometry of the pristine H3 definition held in the harness, not from the code under test."),
 "C06": ("points at which callers stall or die inside a call; others must finish, within a step bound, without waiting", "exploration",
         "Seeded exploration; a step is an instrumented edge, access or allocation. Step bounds are generous multiples of the answer size. Futex-based and spinning waits are both seen."),
 "C07": ("bit flips, torn, mixed and overwritten stored indexes, rotation counts and positions, concurrent with undamaged calls; no panic, abort or step/memory bound exceeded", "exploration",
         "Seeded exploration in the overflow-checked build (quick) and both builds (thorough)."),
 "C08": ("damage to stored cell and edge indexes (bit flips, torn, mixed, lost writes, racing writers); verdicts compared with a field-by-field model", "exploration",
         "Seeded exploration of the 64-bit space concentrated one to six bits around valid indexes of every resolution."),
 "C09": ("crash instants, batching of durable positions, damaged positions and resumption modes of enumeration jobs; every child processed compared with a digit-arithmetic model", "exploration",
         "Seeded exploration over all parents and resolution gaps up to 15, windows at the start, end, middle and around pentagon carries."),
 "C10": ("crash instants, interleavings of walkers and headings; every landing compared with a turtle walking on an independent geometric grid", "exploration",
         "Seeded exploration concentrated on pentagon surroundings, base-cell and face borders. The model derives headings from the geometry of neighbouring centres, not from the code's tables."),
 "C11": ("crash instants, lost/torn/mixed/decayed journal words, lost, duplicated and misplaced move orders, and interleavings of travellers recording journeys as directed edges; every recovered journey compared with one on an independent geometric grid", "fault_enumeration",
         "Seeded exploration concentrated on pentagon surroundings and base-cell and face borders. Which direction number an edge carries is not prescribed beyond what validity and decoding fix."),
 "C12": ("split orders, lease expiries under skewed clocks, crashes, stalls and refused allocations of workers sharing a sweep of the grid; cells visited compared with the closed-form whole", "exploration",
         "Seeded exploration. Whole sweeps are run at coarse resolutions; deeper ones are swept by announced counts with sampled splits."),
 "C13": ("positions, crash instants, hand-overs between nodes and damaged reports of position trackers; every saved cell and restored position compared with an independent geometric grid", "exploration",
         "Seeded exploration. The crash and hand-over histories decide the no-drift part; which cell contains a position is a question of inputs, which the same histories sample. Positions within 1e-5 of a cell's size of a border are not judged; restored positions are judged to 1e-11 rad, less strictly next to the poles."),
 "C14": ("crash instants, batching and ways of recovery (turning back, completing the circle, turning again) of editors turning stored indexes in place; every turn compared with headings and centres on an independent geometric grid", "exploration",
         "Seeded exploration over all base cells and resolutions. The crash histories decide undo and redo; that a single turn is right is sampled inside them."),
 "C15": ("crash instants, batching and ways of recovery (undo from values read before, redo) of editors changing fields of stored words; every word and everything an index says about itself compared with a model of the bit layout", "exploration",
         "Seeded exploration over valid, damaged and random words. Values set are those that fit the field; wider ones are not judged."),
 "C16": ("crash instants, hand-overs and interleavings of navigators sailing by azimuth and distance; every position, azimuth and angle compared with vector geometry", "exploration",
         "Seeded exploration concentrated on poles, date line, due north and south. Judged to 1e-12 rad, less strictly where a leg ends next to a pole (the latitude is recovered from its sine). The crash histories decide resumption; the geometry of one leg is sampled inside them."),
 "C17": ("patterns of refused allocations, stalls, deaths and interleavings of clerks working off possible and impossible requests and deciding from the error alone (ask again, safe route, give up); every error compared with the causes present", "exploration",
         "Seeded exploration. Where several causes are present any of them counts; damaged words beyond a missing base cell and damaged edges are C07's and C08's."),
}
N = {}
m = {"version": 1, "setup_cmd": "./setup.sh",
 "checks": [{"property": k, "quick_cmd": f"./check.sh {k} quick", "thorough_cmd": f"./check.sh {k} thorough",
             "evidence_file": f"evidence/{k}.json", "technique": T + v[0], "level": v[1], "level_note": v[2]} for k, v in C.items()],
 "not_applicable": [{"property": k, "reason": v} for k, v in N.items()],
 "notes": "No hooks in /repo: the seams are the global allocator, compiler instrumentation of the h3_rs crate only (RUSTC_WRAPPER), and the C library's futex/sleep/yield/clock/getrandom entry points. './replay.sh FILE' re-executes a recorded violation."}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
