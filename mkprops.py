#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a program so that the text stays readable)."""
import json, os
H, F, S, I, C, K = "histories", "fault_sequences", "schedules", "inputs", "configurations", "crash_points"
M = "src/geomap/cppmap.cxx"; MH = "src/geomap/cppmap.hxx"; MU = "src/geomap/cppmap_utils.cxx"; FS = "src/geomap/facestatistics.hxx"; PO = "src/geomap/polygon.hxx"
NOTEST = "The stable tests never touch the geometric map at all (they cover the pixel-based cell image and small helpers); "
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": list(observe), "hook_needed": hook}})


prop("P01", "Refused, aborted or invalid map operations change nothing",
     "If an observer vetoes an elementary map operation, an observer raises before the operation has been carried out, or the operation is called with invalid arguments, then the complete observable state of the map (cells, connectivity, geometry, flags, labels, label image, pixel counts) is exactly what it was before the call. The caller learns of it through an empty result or an exception, never a success. If an observer raises after the operation was carried out, the map is left in the completed, fully consistent state.",
     [H, F], "for every map, every history of operations and every veto, exception or invalid call placed at any notification of any operation",
     NOTEST + "and the number of (history, observer, notification) combinations at which a veto or an exception can hit is unbounded.",
     [M, MH, MU], [("pre-hooks are run before anything is modified", M + ": mergeFaces, removeBridge, mergeEdges, splitEdge, removeIsolatedNode"), ("vigra_precondition checks before modification", M)],
     observe=["all cell iterators, darts, labelImage(), pixelArea() before and after the call"])
prop("P02", "Observers are told exactly what happened, in order, exactly once",
     "Every elementary operation carried out on a map notifies every connected observer exactly once before and once after, in connection order, with the cells that are really affected; a veto stops all further notifications of that operation and no observer ever sees an 'after' without its 'before'. Observers connected or disconnected during a notification take effect as the signal library promises, and disconnected observers are never called again. The map seen from inside a 'before' notification is the unchanged map, and the map seen in an 'after' notification is the final one.",
     [H, F, S], "for every history, every set of observers, every order of connecting, disconnecting, vetoing and raising, also from inside notifications",
     NOTEST + "no test connects more than one observer or disconnects one while the map changes.",
     [M, MH, MU], [("boost signals with a cancelling combiner", MH + ": CancellableSignal / *Hook members"), ("hooks called by the elementary operations", M)],
     observe=["arguments and order of all callbacks", "map state read from inside callbacks"])
prop("P03", "Topology after any history is that of the corresponding planar operations",
     "After any sequence of elementary and bulk operations the map is a valid planar map (node rotations, face contours, edge ends and face incidences agree, outer contour first and holes nested inside it, counts and label ranges right) and equals the one obtained by applying the same operations to a plain combinatorial model. Labels of surviving cells and the geometry of their edges are stable, and removed cells stay removed.",
     [H, I, F], "for every generated map (crack-edge, grid, scattered with isolated nodes, holes, bridges, loops) and every operation history, with and without refused operations",
     NOTEST + "the interesting cases (loops, bridges between components, holes merged into their surroundings) only arise several operations deep.",
     [M, MH], [("orbit surgery", M + ": mergeEdges, splitEdge, removeBridge, mergeFaces"), ("contour anchors", MH + ": Face")],
     state=[("sigma mapping", "cyclic order of darts around nodes", MH), ("face anchors", "one dart per contour", MH)], observe=["iteration over nodes, edges, faces, darts, contours"])
prop("P04", "Reported measures and point queries always match the current geometry",
     "Whatever has been queried, cached or modified before, every reported length, partial area, bounding box, scanline set, face area, contour traversal and dart traversal equals what is computed from scratch from the current points. Point queries agree with them: the nearest node is really nearest, the face found at a point contains it, and no other face claims it.",
     [H, I], "for every interleaving of queries (which fill caches) with operations that change the geometry",
     NOTEST + "a stale cache shows only if the right query precedes the right operation and follows it again.",
     [M, MH, PO], [("validity flags of cached face properties", MH + ": Face"), ("cached polygon properties", PO), ("spatial index of nodes", "src/geomap/vigra/map2d.hxx")],
     observe=["Edge::length, partialArea, boundingBox, scanLines; Face::area, boundingBox, contains; faceAt, nearestNode"])
prop("P05", "Label image and pixel counts always match the current regions",
     "While a map keeps a label image, every pixel not crossed by an edge carries the label of the face that contains it and every pixel crossed by an edge is marked as such, each face's pixel count equals the number of its pixels, and exactly the pixels that become part of a face by an operation are announced to observers, once. Switching the label image off and on again, or drawing the regions anew, at any time gives the same regions.",
     [H, I, F], "for every map and every history of merges, splits, removals and label-image switches, with vetoes and exceptions in between",
     NOTEST + "errors need nested faces, overlapping edges in one pixel, or a particular order of merges.",
     [M, MH, "src/geomap/labellut.hxx"], [("edge counters in negative pixel values", M + ": rawAddEdgeToLabelImage, removeEdgeFromLabelImage"), ("lazy relabelling table", "src/geomap/labellut.hxx")],
     observe=["labelImage(), Face::pixelArea(), associatePixels notification"])
prop("P06", "Region colour statistics equal a recomputation from the pixels",
     "As long as colour statistics are attached to a map, the sample count, average, variance and region differences they report for every region equal those computed from scratch from the image and the current label image, after any history of merges, bridge removals, refused operations and edge operations. Once detached they stay as they were, and copies are independent of the original.",
     [H, I, F], "for every image, map and history, including regions too small to contain a pixel",
     NOTEST + "statistics are updated incrementally from notifications, so errors accumulate over histories.",
     [FS, M], [("merge of per-face functors in pre/post merge notifications", FS), ("associated pixels are added", FS)],
     observe=["pixelCount, average, variance, faceMeanDiff, checkConsistency"])
prop("P07", "Protected edges survive until their protection is lifted",
     "While edge protection is in force, no operation on the map (elementary or bulk) removes an edge that carries a protection flag or joins edges carrying different flags, whatever other observers do; lifting the protection or the flag makes the same operation possible again. Border protection set when a map is initialised keeps the border edges.",
     [H, F], "for every history of setting and clearing protection flags, every set of other observers and every bulk operation",
     NOTEST + "protection works through the same veto mechanism as any observer and can be by-passed by order effects.",
     [MU, M, MH], [("veto callbacks of the protection object", MU + ": EdgeProtection"), ("flag tests", MH + ": Edge::flag")], observe=["edge existence and flags after each operation"])
prop("P08", "Bulk operations do exactly what is allowed and leave the rest alone",
     "Each bulk clean-up (merging all degree-2 nodes, removing isolated nodes, all bridges or given edges, merging two faces completely) performs exactly the elementary steps that are possible, skips those that observers refuse, and terminates within a number of steps bounded by the map size. It returns the number of cells it really removed, leaves no temporary marks on cells, and when an observer raises the map stays consistent.",
     [H, F], "for every map, every subset of steps refused or raising at any point of the bulk operation",
     NOTEST + "a refusal in the middle changes which later steps remain possible.",
     [MU], [("work lists built before modification", MU + ": removeBridges, removeEdges, mergeDegree2Nodes, removeIsolatedNodes")], observe=["return values, flags, map state"])
prop("P09", "Handles and observers stay safe when what they refer to is gone",
     "A handle to a node, edge or face that is held while the cell is removed, relabelled or its map destroyed can still be asked whether it is alive and gives the right answer, and using it otherwise is rejected with an exception rather than touching freed memory; the same holds for a dart whose edge is removed while its map exists. Observers and their connections can be destroyed before or after the map, and a destroyed observer is never called.",
     [H, F], "for every history, every set of held handles, every order of destroying handles, observers and maps",
     NOTEST + "lifetime errors need a handle held across exactly the removing operation.",
     [M, MH, MU, FS], [("shared ownership of cells, map pointer cleared on removal", MH), ("connections kept by observers", MU + ", " + FS)], observe=["initialized(), every accessor on held handles, under AddressSanitizer"])
prop("P10", "A copied map equals its original and is independent of it",
     "A copy made at any point of a history has exactly the observable state of its original; performing the same further operations on original and copy keeps them equal, and operations on one never change the other. Destroying either leaves the other fully usable.",
     [H, F], "for every point of every history at which a copy is made, for graphs and initialised maps, with and without label image",
     NOTEST + "sharing between copy and original shows only when one of them is modified later.",
     [M, MH], [("copying constructor", M + ": GeoMap::GeoMap(const GeoMap &)")], observe=["complete state of both maps"])
prop("P11", "Queries, copies and label images survive running out of memory",
     "If memory runs out at any allocation during a query, the copying of a map or the switching of its label image, the call fails with the out-of-memory error and the map is exactly what it was before; repeating the call when memory is available gives the right result. No memory of the map is released twice or used after release.",
     [F, H], "for every allocation of every such call at every point of every history",
     NOTEST + "no test makes an allocation fail.",
     [M, MH, PO], [("results are built aside and assigned last", M + ": setHasLabelImage; polygon caches")], observe=["exception type, map state, results of the repeated call, AddressSanitizer"])
prop("P12", "Polygon measures are right after any edit history, also failed edits",
     "After any sequence of appends, inserts, erasures, point changes, splits, swaps, reversals, copies and extensions of polygons, in any interleaving with queries, the points are the expected ones and the reported length, partial area, bounding box, closedness and containment equal a computation from scratch. An edit that fails because memory runs out leaves the points and reported measures of every polygon right.",
     [H, F], "for every interleaving of edits, queries and allocation failures on a pool of polygons",
     "No stable test touches polygons; a cached value is wrong only for particular query/edit/query orders.",
     [PO], [("validity flags updated by each edit", PO + ": Polygon, BBoxPolygon")], observe=["size and points, length, partialArea, boundingBox, contains, closed"])


def na(id, title, statement, text, why, files, mech):
    prop(id, title, statement, [I], text, why, files, mech)


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "mkprops_more.py")).read())
na("P31", "Polygon simplification, resampling and clipping keep their error bounds",
   "Simplified, resampled, smoothed and clipped polygons and convex hulls satisfy the tolerance or containment they promise with respect to the input.",
   "for every input polygon", "Tests can only sample polygons.", [PO, "src/geomap/vigra"], [("polygon algorithms", PO)])
na("P32", "The watershed search misses no critical point",
   "Every isolated saddle, maximum and minimum of the interpolated boundary indicator is found by the search at sufficient oversampling.",
   "for every image", "Tests can only sample images.", ["src/geomap/vigra", "src/python_bindings"], [("Newton search from every pixel", "src/geomap/vigra/subpixel_watershed.hxx: findCriticalPointsNewtonMethod")])
na("P34", "Crack-edge maps represent exactly the regions of the label image",
   "The map made from a label image has one face per connected region, bounded by the crack edges between different labels.", "for every label image",
   "Tests can only sample images.", ["src/geomap/crackedgemap.cxx"], [("crack tracing", "src/geomap/crackedgemap.cxx")])
na("P35", "Filter iterators visit exactly the accepted elements",
   "Iterating with a filter visits exactly those elements of the sequence that the predicate accepts, in order.", "for every sequence and predicate",
   "Tests sample two sequences.", ["src/geomap/filteriterator.hxx"], [("skipping in operator++", "src/geomap/filteriterator.hxx")])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
