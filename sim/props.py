"""Which simulator decides which property, with what budget, and what is real / stubbed in it."""
MAP_REAL = ["GeoMap, its cells, callbacks and label image (src/geomap/cppmap.cxx, cppmap.hxx)", "bulk operations, EdgeProtection (cppmap_utils)",
            "FaceColorStatistics (facestatistics.hxx)", "polygons and scanlines (polygon.hxx)", "crack edge maps (crackedgemap)", "boost::signals2, VIGRA"]
MAP_STUB = ["the application: simulated observers that veto, raise, attach and detach on command", "operator new (counts, fails on command)"]
MAP_ASSUME = ["single caller thread, as the library requires", "observers do not modify the map re-entrantly from inside a notification",
              "maps up to about 120 edges and histories up to about 60 operations per run"]


def m(**k):
    d = dict(engine="map", real=MAP_REAL, stub=MAP_STUB, assumptions=MAP_ASSUME, quick_s=45, quick_n=6000, thorough_s=600)
    d.update(k)
    return d


PROPS = {
    "P01": m(technique="vetoes, exceptions and invalid calls at seeded notifications; state before/after compared, refinement against a map model"),
    "P02": m(technique="recorded notification history checked against the protocol; map observed from inside notifications", quick_n=5000),
    "P03": m(technique="refinement of every operation against a combinatorial map model, structural invariants after every step"),
    "P04": m(technique="seeded interleavings of cache-filling queries and operations, every answer recomputed from scratch"),
    "P05": m(technique="label image, pixel counts and announced pixels recomputed from the geometry after every step"),
    "P06": m(technique="statistics observer among vetoing and raising observers, recomputed from the pixels after every step"),
    "P07": m(technique="protection observer among other observers and bulk operations, invariant on removed and merged edges"),
    "P08": m(technique="bulk operations with seeded refusals and exceptions inside, decomposed into elementary steps of the model"),
    "P09": m(technique="handles and observers held across removals and destruction in seeded order, under AddressSanitizer"),
    "P10": m(technique="lockstep twin copies and frozen copies taken at seeded points of the history"),
    "P11": m(technique="allocation failure at every seeded allocation index of queries, copies and label image switches"),
}

PROPS["P12"] = dict(engine="poly", technique="seeded edit/query interleavings with allocation failures against a vector model", quick_s=30, quick_n=60000, thorough_s=300,
                    real=["Polygon, BBoxPolygon, PointArray (src/geomap/polygon.hxx)"],
                    stub=["the application: a pool of polygons driven by the script", "operator new (counts, fails on command)"],
                    assumptions=["coordinates of moderate size, so that sums in another order agree to 1e-9 relative"],
                    sig_measure="pair of consecutive operations with their outcome and size classes", state_measure="hash of the changed polygon's points")

def c(**k):
    d = dict(engine="cell", quick_s=40, quick_n=20000, thorough_s=600,
             real=["FourEightSegmentation, its cells and operations (src/cellimage/foureightsegmentation)", "CellPyramid (cellpyramid.hxx)", "CellStatistics, edge rethinning (cellstatistics, mydebug)", "VIGRA"],
             stub=["the application: a script of operations and level requests", "statistics hooks that raise on command (wrapping the real CellStatistics)", "operator new (counts, fails on command)"],
             assumptions=["single caller thread", "thin contour images up to 20 x 16 pixels, histories up to about 60 operations"],
             sig_measure="pair of consecutive operations with their fault kind and whether inside a composite", state_measure="hash of the serialised segmentation (cell image and cell lists)")
    d.update(k)
    return d


PROPS["P18"] = c(technique="recorded pyramid histories with failing operations, cuts and composites; every level compared with the state recorded when it was made")
PROPS["P19"] = c(technique="operation histories with invalid calls and restarts from the serialised cell image; everything recomputed from the pixels")
PROPS["P20"] = c(technique="statistics maintained by notifications over seeded histories, recomputed from the pixels after every step")

PY_REAL = ["the Python module geomap (src/python_bindings, src/geomap) built with AddressSanitizer", "maputils, statistics, flag_constants (/repo/python, converted to Python 3 by lib2to3 as they are)", "boost::signals2, boost::python, VIGRA, pickle"]


def y(**k):
    d = dict(engine="py", quick_s=45, quick_n=6000, thorough_s=600, real=PY_REAL, stub=["the application: scripted sessions and Python observers"],
             assumptions=["single caller thread", "observers do not modify the map re-entrantly from inside a notification and do not raise from post hooks (except where stated)",
                          "maps up to about 60 edges, histories up to about 60 operations per run"],
             sig_measure="pair of consecutive operations with their outcome, plus the notifications and faults inside them", state_measure="hash of the complete dump of the map after an operation")
    d.update(k)
    return d


PROPS["P13"] = y(technique="crash and restore from pickles at seeded points, lockstep twins of restored and copied maps", quick_n=7000,
                 stub=["the application: scripted sessions", "process crash: everything but the pickled bytes is dropped"])
PROPS["P14"] = y(technique="recorded histories replayed at every seeded prefix, through a simulated disk with full, torn, failing writes and crashes; vetoes and exceptions during recording",
                 stub=["the application: scripted sessions, refusing and raising observers", "the disk behind maputils' file() (short, torn, failing writes, read errors, crash)"])
PROPS["P15"] = y(technique="Python observers that refuse, raise, answer nonsense, disconnect, drop and outlive each other and the map; recorded history against the protocol")
PROPS["P16"] = y(quick_n=16000, technique="merging strategies under vetoes, protection and seeded tie-breaking of the cost queue, every step judged against a reference",
                 stub=["the application: cost measures, refusing observers", "DynamicCostQueue (not contained in the module): cheapest first, ties decided by the seed"])
PROPS["P17"] = y(technique="attached statistics under refusals, exceptions, splits, crash and restore, compared with a recomputation after every step", quick_n=5000,
                 stub=["the application: scripted sessions, refusing and raising observers", "the sampled images (closed formulas instead of splines)"])
PROPS["P21"] = y(technique="worker processes, pipes, locks and timeouts under a seeded scheduler; killed and slow workers, full pipes, raising functions",
                 stub=["multiprocessing: processes as scheduled tasks, pipes with bounded capacity, pickling of everything that crosses", "the clock (timeouts)"],
                 assumptions=["worker processes share nothing with their parent but what multiprocessing transports"],
                 sig_measure="sequence of scheduling decisions (task and point)", state_measure="outcome of the call and the schedule it was reached by")
PROPS["P22"] = y(technique="iterations, edits, map operations, invalid accesses and releases as tasks interleaved by a seeded scheduler, against plain lists", quick_n=12000,
                 stub=["the application: scripted sessions"], assumptions=["single caller thread", "a dart is not used after its map has been released (known finding)", "labels are merged by their representatives"],
                 sig_measure="pair of consecutive operations", state_measure="kinds and sizes of the arrays and the iterations under way")
PROPS["P23"] = y(technique="seeded sequences of moves of several positions, interleaved with copies, changes and release of the map, against arc lengths along the point lists", quick_n=30000,
                 stub=["the application: scripted sessions"], assumptions=["single caller thread", "circles contain the start of the current segment", "positions are discarded when their dart changes"],
                 sig_measure="pair of consecutive moves", state_measure="segment, offset and length of all positions")
PROPS["P24"] = y(technique="maps built by seeded sequences of steps, with invalid steps, refusing observers, copies and crash/restore in between, against a model of the graph and its embedding", quick_n=8000,
                 stub=["the application: scripted sessions, refusing observers", "process crash: everything but the pickled bytes is dropped"],
                 assumptions=["single caller thread", "edges do not cross or touch except at nodes or where they run along each other from a common node on", "no changes between planning and carrying out the splitting of parallel edges"],
                 sig_measure="pair of consecutive steps", state_measure="hash of the complete dump of the graph or map after a step")
PROPS["P25"] = y(technique="queries and derived graphs at every stage of seeded histories with refusing observers, invalid calls, copies and crash/restore, two generators consumed alternately, against a computation from the bare cells", quick_n=8000,
                 stub=["the application: scripted sessions, refusing observers", "process crash: everything but the pickled bytes is dropped"],
                 assumptions=["single caller thread", "all costs are different", "no changes while a generator is being consumed"],
                 sig_measure="pair of consecutive calls", state_measure="hash of the complete dump of the map after a call")
PROPS["P26"] = y(technique="several watershed searches asked by a seeded schedule, with parameter changes, masks, overwritten and released images and invalid requests in between, against an object made for each question alone", quick_n=6000,
                 stub=["the application: scripted sessions"], assumptions=["single caller thread", "images of at least 7 x 7 pixels without plateaus"],
                 sig_measure="pair of consecutive calls", state_measure="image, parameters and mask in force of all searches")
PROPS["P27"] = y(technique="lines extended at both ends by a seeded schedule with refused, repeated and invalid points, copies and crash/restore in between, against all lines through the accepted points", quick_n=8000,
                 stub=["the application: scripted sessions", "process crash: everything but the pickled bytes is dropped"], assumptions=["single caller thread", "lines of up to 70 points"],
                 sig_measure="pair of consecutive calls", state_measure="parameters and extent of all lines")

PURE = "pure function of its input: no schedule, clock, I/O, fault or history for the simulator to decide; generating inputs would be plain property testing"
NA = {
    "P31": PURE + ".",
    "P32": PURE + " (the search runs to completion inside one call).",
    "P34": PURE + "; its results are used as starting maps of the simulated histories only.",
    "P35": PURE + ".",
}
