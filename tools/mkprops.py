#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Answers do not depend on history or on other callers",
"Every call's answer depends only on its arguments: whatever calls the process made before (successful, failed, starved of memory, or abandoned half-way by a caller that died), however other threads' calls interleave with it, whatever calls a signal handler makes on the same thread in the middle of it (and of which call it is made in the middle), and whatever the memory it is given contains and the clocks and random seeds it can see say, it returns the cells, distances, values or error the same call returns when made alone in a fresh process. Results already handed out never change afterwards.",
["schedules","histories","fault_sequences"],
"every sequence of earlier calls, every interleaving of concurrent calls at instruction-block granularity, every nesting of fixed-size calls in interrupted ones, every content of fresh memory, every pattern of failed allocations, stalls and deaths of other callers",
"The tests make one call at a time in a fixed order and never two at once; hidden state that shows only after a particular earlier call, or only under a particular interleaving, is outside anything they run.",
["src/algos.rs","src/h3_index.rs","src/iterators.rs","src/directed_edge.rs","src/base_cells.rs","src/lat_lng.rs"],
[("all working state lives on the call's own stack, in its own result or in the caller's iterator","src/algos.rs, src/h3_index.rs, src/iterators.rs"),("lookup tables are immutable constants","src/base_cells.rs, src/face_ijk.rs, src/algos.rs")],
observe=["return values of the public functions of algos, h3_index, directed_edge, base_cells, iterators, lat_lng"])

p("C02","Running out of memory is an error, not a crash or a wrong answer",
"If memory allocation fails at any point of a call (on anything but the null index), the call either still returns exactly what it returns with ample memory or reports the memory error: it never aborts, panics, hangs, or returns a partial or different answer, it reports the memory error only when an allocation failed or the answer is too large to allocate, and the same call succeeds once memory is available again. Calls with a fixed-size answer (validation, conversion, child counts and positions, one neighbour, directed edges, stepping an enumeration) need no memory and are unaffected.",
["fault_sequences","inputs"],
"every call of the public API, every subset of its allocations failing, every request size including ones that can never be allocated",
"No test makes an allocation fail or asks for an oversized answer.",
["src/algos.rs","src/h3_index.rs","src/base_cells.rs","src/error.rs"],
[("fallible reservation before each growth of a result, mapped to the memory error","src/algos.rs gridDiskDistances, gridDiskDistancesUnsafe, gridRingUnsafe; src/h3_index.rs cellToChildren; src/base_cells.rs getRes0Cells; src/error.rs"),("saturating size computation","src/algos.rs maxGridDiskSize"),("disk falls back when its fast path fails for any reason","src/algos.rs gridDiskDistances")],
observe=["return values","process exit status"])

p("C03","No call keeps or over-uses memory",
"Once the caller has dropped a call's result, all memory the call obtained is released, whether the call succeeded, failed, ran out of memory, or its enumeration was dropped part-way or its consumer panicked: repeating calls never grows the process. It writes to no memory but what it asked for. While it runs, a call uses (heap and stack together) at most a constant multiple of the largest possible size of its answer, and a call with a fixed-size answer uses only a small constant.",
["histories","fault_sequences"],
"every sequence of calls on every path (success, error, failed allocation at any point, abandoned enumeration, panicking consumer)",
"The tests never look at memory and exercise hardly any error path.",
["src/algos.rs","src/h3_index.rs","src/iterators.rs","src/base_cells.rs"],
[("results are plain owned vectors returned by value; error paths drop them","src/algos.rs, src/h3_index.rs"),("the iterator holds no heap memory","src/iterators.rs IterCellsChildren"),("fallback table sized by maxGridDiskSize and filtered in place","src/algos.rs gridDiskDistances")],
observe=["allocator calls","stack depth"])

p("C04","Child enumeration delivers every child exactly once, however it is consumed",
"Enumerating a cell's children at a finer resolution yields each child exactly once in ascending order and then reports the end for ever, for hexagons and pentagons at every pair of resolutions; an impossible request yields an empty enumeration. This holds however consumption is paused, resumed, batched, skipped ahead, handed to another thread, interleaved with other enumerations, or interrupted by a panic in the consumer, and dropping an enumeration early affects nothing else.",
["schedules","histories","fault_sequences","inputs"],
"every parent, child resolution, pattern of partial consumption, interleaving of enumerations and threads, and point of interruption",
"Two tests collect two small hexagon parents in one go; pentagon parents, pauses, interleavings, skipping and exhaustion are never exercised.",
["src/iterators.rs","src/h3_index.rs"],
[("cursor advanced by carrying digit arithmetic, with the pentagon's missing digit skipped","src/iterators.rs IterCellsChildren::next"),("exhausted state is the null iterator","src/iterators.rs IterCellsChildren::_null_iter")],
[("current child, parent resolution, digit position where the next skip happens","the enumeration's whole progress","src/iterators.rs IterCellsChildren")],
["items yielded by IterCellsChildren","result of cellToChildren"])

p("C05","A grid disk is exact even when its fast path is cut short",
"The disk of radius k around a cell contains every cell whose shortest hop distance from it is at most k, exactly once, paired with that distance, for hexagons and pentagons everywhere on the globe at every resolution, no matter at which step the optimistic traversal is cut short (by a pentagon or by a failed allocation) and replaced by the fallback. The traversals without fallback (fast disk, hollow ring) return either exactly the right cells (the fast disk in the order of increasing distance) or an error, and an error only when a pentagon lies within k of the origin or an allocation failed.",
["fault_sequences","inputs","schedules"],
"every origin, radius, and step at which the optimistic traversal is abandoned",
"Tests compute two disks of radius 1 at resolution 0; the fallback is reached for one pentagon only, and never after part of the fast path has run.",
["src/algos.rs","src/base_cells.rs","src/h3_index.rs"],
[("optimistic attempt, then fallback from scratch","src/algos.rs gridDiskDistances"),("fallback revisits a cell reached by a shorter path","src/algos.rs _gridDiskDistancesInternal"),("orientation carried between moves","src/algos.rs h3NeighborRotations"),("ring closure check","src/algos.rs gridRingUnsafe")],
observe=["results of gridDiskDistances, gridDiskDistancesUnsafe, gridRingUnsafe"])

p("C06","No caller can block another, and each call does bounded work",
"A call completes in a bounded number of its own steps, a bound that depends only on the largest possible size of its answer, whatever other threads do: a caller stalled for any time or killed at any point inside the library never makes another caller wait, fail or spin, and neither does a call interrupted by a signal handler that calls the library itself. No interleaving leads to deadlock or livelock.",
["schedules","fault_sequences"],
"every interleaving and every point inside any call at which another caller stalls or dies",
"The tests are single-threaded and none stops a caller part-way.",
["src/algos.rs","src/h3_index.rs","src/iterators.rs","src/base_cells.rs","src/directed_edge.rs"],
[("no locks, no shared mutable state","whole crate"),("the fallback stops at the radius and at cells already reached by a path as short","src/algos.rs _gridDiskDistancesInternal"),("rotation count reduced before looping","src/algos.rs h3NeighborRotations")],
observe=["completion of calls and steps they take"])

p("C07","A corrupted stored index is contained",
"When a stored cell index, edge index, rotation count, child position or coordinate has been damaged by bit flips, torn writes or overwriting, every operation given the damaged value still returns a value or an error after a bounded amount of work: it never panics, aborts, loops, exhausts memory or writes outside the memory it asked for. Calls on undamaged values, concurrent or later, are unaffected.",
["fault_sequences","histories","inputs"],
"every pattern of bit flips, torn and misdirected writes on stored values between and during operations",
"Tests pass well-formed indexes only, apart from one hand-made invalid edge.",
["src/algos.rs","src/h3_index.rs","src/directed_edge.rs","src/iterators.rs","src/base_cells.rs","src/lat_lng.rs"],
[("base cell and digit range checks","src/algos.rs h3NeighborRotations; src/h3_index.rs _h3ToFaceIjk; src/base_cells.rs _isBaseCellPentagon"),("wrapping cursor step","src/iterators.rs _incrementResDigit"),("rotation count reduced modulo 6","src/algos.rs h3NeighborRotations"),("position range check","src/h3_index.rs validateChildPos"),("angles reduced before any loop","src/lat_lng.rs constrainLng"),("coordinates checked for finiteness","src/h3_index.rs latLngToCell")],
observe=["return values, steps and process status"])

p("C08","Validation detects every corruption that breaks the index format",
"After any bit flips, torn, mixed or lost writes to a stored cell or directed-edge index, validation accepts the stored value if and only if it is a well-formed index of that kind: high bit clear, the right mode, reserved bits zero (edge: a direction 1 to 6, and not 1 from a pentagon), base cell below 122, digits 0 to 6 down to the resolution and 7 after it, and no first non-zero digit 1 under a pentagon base cell. The verdict does not depend on earlier validations or on concurrent ones.",
["fault_sequences","inputs"],
"every pattern of damage to every stored index, at every resolution",
"Tests validate a handful of well-formed indexes and no damaged one.",
["src/h3_index.rs","src/directed_edge.rs"],
[("field by field check","src/h3_index.rs isValidCell; src/directed_edge.rs isValidDirectedEdge")],
observe=["isValidCell, isValidDirectedEdge"])

p("C09","Enumeration resumes exactly from a durable position after a crash",
"A job that processes a cell's children in order and durably records how many it has done can crash at any instant and be resumed from the recorded position, by asking for the child at a position or by skipping an enumeration ahead: every child ends up processed exactly under its own position, none lost, repeated under another position or invented, and the announced number of children is the number delivered, for every resolution gap including the largest. A recorded position outside the valid range is rejected with an error.",
["crash_points","fault_sequences","histories","inputs"],
"every parent and resolution gap, every crash instant (inside or between calls), every subset of unsynced writes surviving, every damaged position",
"No test calls the position lookup at all, the size is tested for gaps up to 2, and nothing checks that size, position and enumeration agree.",
["src/h3_index.rs","src/iterators.rs"],
[("count in closed form","src/h3_index.rs cellToChildrenSize"),("mixed-radix decoding of the position with pentagon widths","src/h3_index.rs childPosToCell"),("range check","src/h3_index.rs validateChildPos")],
[("position","number of children already processed, the job's only durable state","caller's storage")],
["childPosToCell, cellToChildrenSize, IterCellsChildren"])

p("C10","A grid walk can crash and resume at any move and stay on course",
"A walker that moves cell by cell, giving each move as a heading and carrying the returned rotation into the next move, always lands on the neighbouring cell lying in that heading relative to its previous course, across base cells, icosahedron faces and around pentagons, as long as it never stands on a pentagon; a move without a heading (the centre direction) leaves it where it is. It may crash at any instant and resume from the last durably recorded cell and rotation, on another thread and among other walkers, without leaving the course.",
["crash_points","histories","schedules","inputs"],
"every start, every sequence of headings avoiding pentagons, every crash instant and every interleaving of walkers",
"Tests never pass a non-zero rotation between moves explicitly and only make rings of radius 1 and 2 at one place.",
["src/algos.rs","src/base_cells.rs","src/h3_index.rs"],
[("heading rotated by the carried count, count updated on crossing","src/algos.rs h3NeighborRotations"),("digit transition tables","src/algos.rs NEW_DIGIT_II/III, NEW_ADJUSTMENT_II/III"),("base cell neighbours and rotations","src/base_cells.rs baseCellNeighbors, baseCellNeighbor60CCWRots")],
[("cell and rotation","the walker's only durable state","caller's storage")],
["h3NeighborRotations"])

p("C11","A journey recorded as directed edges is recovered exactly",
"A traveller that records each move between neighbouring cells as a directed edge on storage that may lose, tear, mix or decay words, and that crashes and restarts from what is there, recovers its journey exactly: the edge made for an ordered pair of neighbours is valid and decodes to that pair, pentagons included, one edge per neighbour and no other; a journal word counts if and only if it is a valid edge, and then decodes to the two cells it names; a move order that names a non-neighbour (lost, duplicated or misplaced orders) is refused as such and moves nobody.",
["crash_points","fault_sequences","histories","schedules","inputs"],
"every pair of neighbours, every crash instant, every subset of unsynced writes surviving and every damage to the journal",
"Tests make edges around one cell, decode them at once, and never decode an edge that was stored, damaged or made by another process.",
["src/directed_edge.rs","src/algos.rs","src/h3_index.rs","src/base_cells.rs"],
[("direction in the reserved bits, deleted direction of pentagons","src/directed_edge.rs cellsToDirectedEdge, originToDirectedEdges, directedEdgeToCells, isValidDirectedEdge"),("neighbour search","src/algos.rs directionForNeighbor, h3NeighborRotations")],
[("directed edge","one 64-bit word per move, the journal is the traveller's only durable state","caller's storage")],
["cellsToDirectedEdge, directedEdgeToCells, getDirectedEdgeOrigin, getDirectedEdgeDestination, originToDirectedEdges, isValidDirectedEdge"])

p("C12","A sweep of the grid shared by crashing workers visits every cell once",
"A sweep of all cells of a resolution, shared by workers that split cells into their children, hold them on leases measured by skewed clocks, crash, stall and run out of memory, ends with every cell of that resolution accounted for under exactly one parent and in no other: the base cells and the children of disjoint cells are disjoint and together complete, the number of base cells announced is the number listed, the number of children announced for any cell is the number it has, and the grand total is 2 + 120 * 7^r whatever the order, the splits and the repetitions.",
["schedules","crash_points","fault_sequences","histories","inputs"],
"every split order, lease expiry, crash instant and refused allocation, at every resolution (deep resolutions by announced counts)",
"Tests expand two parents by a level or two and never check that the parts make up the whole.",
["src/h3_index.rs","src/base_cells.rs","src/iterators.rs"],
[("list of base cells","src/base_cells.rs getRes0Cells"),("split into children","src/h3_index.rs cellToChildren; src/iterators.rs"),("count in closed form","src/h3_index.rs cellToChildrenSize"),("clearing the digits below the parent","src/h3_index.rs _zeroIndexDigits")],
[("work list","cells not yet swept and leases on them, in the callers' shared store","callers' storage")],
["getRes0Cells, cellToChildren, IterCellsChildren, cellToChildrenSize"])

p("C13","A position saved as a cell survives crashes and hand-overs without drift",
"A tracker that saves each reported position as the cell containing it, crashes at any instant, and restores the position from the saved cell on restart or on another node that saves it again, never drifts: the saved cell is the one of the requested resolution that contains the reported position (up to rounding at borders), the same for longitudes that differ by whole turns; the restored position is that cell's centre; saving a restored position gives the same cell, however often it is passed on, and so does handing the cell over as an address on an icosahedron face. Reports with non-finite coordinates or a resolution outside 0 to 15 are refused with the error naming the fault.",
["crash_points","histories","schedules","inputs"],
"every position, resolution, crash instant and chain of hand-overs",
"Tests encode a handful of points and round-trip four cells, once each.",
["src/h3_index.rs","src/face_ijk.rs","src/coord_ijk.rs","src/lat_lng.rs","src/vec3d.rs","src/vec2d.rs","src/base_cells.rs"],
[("nearest face, gnomonic projection, hexagon rounding, aperture-7 ascent","src/face_ijk.rs _geoToHex2d; src/coord_ijk.rs _hex2dToCoordIJK; src/h3_index.rs _faceIjkToH3"),("inverse projection and overage adjustment","src/h3_index.rs _h3ToFaceIjk; src/face_ijk.rs _adjustOverageClassII, _hex2dToGeo")],
[("saved cell","the tracker's only durable state","caller's storage")],
["latLngToCell, cellToLatLng"])

p("C14","Turns of a stored index are exact and can be undone after a crash",
"An index turned in place about its base cell's centre, one step of sixty degrees (seventy-two about a pentagon's) at a time, in transactions that crash at any instant, is always exactly the turns that count: a turn about a hexagonal base cell carries every digit to the next heading in that sense and changes nothing else; a turn about a pentagonal base cell leads to the cell of the same resolution under the same base cell whose centre is the old centre turned by seventy-two degrees about the pentagon's centre; turning back, or completing the circle of six (five about a pentagon), restores the index from before; making a turn again after a crash gives the same index.",
["crash_points","histories","schedules","inputs"],
"every cell, every sequence of turns (plain turns under hexagonal base cells, pentagon turns under pentagonal ones), every crash instant and way of recovery",
"Nothing in the tests turns an index.",
["src/h3_index.rs","src/coord_ijk.rs"],
[("digit rotation","src/h3_index.rs _h3Rotate60ccw, _h3Rotate60cw; src/coord_ijk.rs _rotate60ccw, _rotate60cw"),("skipping the deleted sector","src/h3_index.rs _h3RotatePent60ccw, _h3RotatePent60cw")],
[("index and number of turns made","the editor's only durable state","caller's storage")],
["_h3Rotate60ccw, _h3Rotate60cw, _h3RotatePent60ccw, _h3RotatePent60cw"])

p("C15","An index edited field by field is exactly its edits, across crashes",
"A stored index edited in place (high bit, mode, reserved bits, resolution, base cell or one digit set to a value that fits, a range of digits zeroed, or a fresh index made from resolution, base cell and digit) changes in the edited field only, whatever the other fields hold, and reads back what was set. Edits interrupted by a crash at any instant can be undone from the values read before them, or made again, to exactly the same word. At every point the index describes itself as its bits say: each field, first non-zero digit, pentagon or not, valid cell or not, odd-numbered (class III) resolution or not, and the resolutions at which it has children (its own to 15).",
["crash_points","histories","fault_sequences","inputs"],
"every stored word (valid, damaged or arbitrary), every sequence of edits in range, every crash instant and way of recovery",
"Tests set fields of a few fresh indexes once and never undo or repeat an edit.",
["src/h3_index.rs"],
[("masks and shifts per field","src/h3_index.rs H3_GET_*, H3_SET_*"),("digit range mask","src/h3_index.rs _zeroIndexDigits"),("fresh index","src/h3_index.rs setH3Index"),("self-description","src/h3_index.rs getResolution, _h3LeadingNonZeroDigit, isPentagon, isValidCell, isResolutionClassIII, _hasChildAtRes")],
[("word, undo log","the editor's durable state","caller's storage")],
["H3_GET_* and H3_SET_* functions, setH3Index, _zeroIndexDigits, _h3LeadingNonZeroDigit, isPentagon, getResolution, isResolutionClassIII, _hasChildAtRes"])

p("C16","A dead-reckoned position is right after any legs, crashes and hand-overs",
"A navigator that sails legs by azimuth and distance, crashes at any instant and resumes from its last recorded position, possibly on another node, is where spherical geometry puts it: each leg ends, up to rounding, at the point of the sphere at that azimuth and (non-negative) distance from where it began, to, from and over the poles and across the date line included; the azimuth asked for from one position to another points there, and sailing back along it by the same distance leads home; wrapping a longitude or an angle changes it by whole turns only and brings it into its range, a latitude above a quarter turn comes back by half turns and others stay; positions set in degrees or radians are those positions; positions count as almost equal if and only if both coordinates differ by less than the threshold; positions as unit vectors and squared chords between them are right.",
["crash_points","histories","schedules","inputs"],
"every start, sequence of legs (azimuths from one turn below zero to two turns), crash instant and interleaving of navigators",
"Nothing in the tests calls these functions with known answers, none starts at a pole, and none chains two of them.",
["src/lat_lng.rs","src/vec3d.rs","src/vec2d.rs"],
[("closed form, due north and south apart","src/lat_lng.rs _geoAzDistanceRads"),("azimuth","src/lat_lng.rs _geoAzimuthRads"),("ranges","src/lat_lng.rs constrainLng, constrainLat, _posAngleRads"),("comparison","src/lat_lng.rs geoAlmostEqual, geoAlmostEqualThreshold"),("vectors","src/vec3d.rs _geoToVec3d, _pointSquareDist; src/vec2d.rs _v2dMag")],
[("position and next leg","the navigator's only durable state","caller's storage")],
["_geoAzDistanceRads, _geoAzimuthRads, constrainLng, constrainLat, _posAngleRads, setGeoDegs, _setGeoRads, geoAlmostEqual, geoAlmostEqualThreshold, _geoToVec3d, _pointSquareDist, _v2dMag"])

p("C17","Every refusal names its cause, so a client can decide from the error alone",
"A client that decides from the error alone whether to ask again, take the safe route or give up is never misled: a call is refused if and only if one of these causes is present, and the error is the one for a cause that is present. Memory: an allocation failed (the same call asked again with ample memory is then served or refused for another cause). ResDomain: a resolution outside what exists (0-15, and for counting children not coarser than the parent). LatLngDomain: a coordinate that is not finite. Domain: a child position outside the parent's children. ResMismatch: children of a coarser resolution than the parent's asked by position. CellInvalid: the cell's base cell does not exist. NotNeighbors: the two cells of an edge are not neighbours, whatever their distance or resolutions. DirectedEdgeInvalid: the index is no directed edge. Pentagon: a fast disk or hollow ring with a pentagon within its radius (the safe disk then serves the request), or a single step from a pentagon finer than a base cell into its missing direction. Among several causes present any may be named.",
["fault_sequences","schedules","crash_points","inputs"],
"every request, possible or impossible, every pattern of refused allocations and every interleaving of clients deciding from errors",
"The tests compare two error values; which cause is reported when memory runs out on the way to a pentagon, or when a retry follows a refusal, depends on where exactly the allocation fails.",
["src/algos.rs","src/h3_index.rs","src/directed_edge.rs","src/error.rs"],
[("reservation failures become Memory","src/error.rs From<TryReserveError>"),("fast path gives way","src/algos.rs gridDiskDistancesUnsafe, gridRingUnsafe, h3NeighborRotations"),("resolution, position and coordinate checks","src/h3_index.rs cellToChildrenSize, childPosToCell, validateChildPos, latLngToCell, _h3ToFaceIjk"),("edge checks","src/directed_edge.rs cellsToDirectedEdge, getDirectedEdgeOrigin")],
[("error","the only thing the client looks at","returned by each call")],
["cellToChildrenSize, cellToChildren, childPosToCell, latLngToCell, cellToLatLng, h3NeighborRotations, gridDiskDistances, gridDiskDistancesUnsafe, gridRingUnsafe, cellsToDirectedEdge, getDirectedEdgeOrigin, getDirectedEdgeDestination, directedEdgeToCells, getRes0Cells, IterCellsChildren"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
