# more properties (executed by mkprops.py)
CI = "src/cellimage/foureightsegmentation.cxx"; CH = "src/cellimage/foureightsegmentation.hxx"; CP = "src/cellimage/cellpyramid.hxx"; CS = "src/cellimage/cellstatistics.cxx"; CSH = "src/cellimage/cellstatistics.hxx"
prop("P18", "Every level of a cell pyramid can be restored exactly as it was made",
     "After any history of merges, composite operations, cuts and checkpoints on a cell pyramid, every level that is still recorded can be reached from any other one, step by step or in one go, and equals, cell image, cells and statistics alike, the state it had when it was made. The level index and the number of levels are right at any time, and requests for levels that do not exist are rejected. An operation that fails half way (exception from the statistics, no memory, invalid arguments) leaves the pyramid and its current level as they were. Copies and restored levels are independent of each other.",
     [H, F], "for every start image, every history of operations, level changes, cuts and composites, every point at which an operation fails",
     "The stable tests build one segmentation and never build a pyramid; which checkpoint is used and what is replayed from it depends on the whole history.",
     [CP, CI, CSH], [("operation history and checkpoints", CP + ": history_, checkpoints_, getLevel, gotoLevel, approachLevel, cutAbove"), ("replay of recorded operations", CP + ": Level::approachLevel, OperationObserver")],
     state=[("history", "recorded operations", CP), ("checkpoints", "stored segmentations with their statistics", CP)], observe=["topLevel, getLevel, Level::gotoLevel, levelCount", "cellImage and cell lists of every level"])
prop("P19", "Cell image and cells describe the same segmentation after any history",
     "A map made from a thin contour image has the contour pixels in its nodes and edges and one face for each region between them (unless a node encloses it). After any sequence of operations on a cell image, sizes, bounding boxes, degrees, anchors, dart rotations and contours of all nodes, edges and faces, their number, the maximal labels and the Euler relation are those computed from scratch from the pixels, and each operation changes exactly the pixels of the cells it merges. Invalid calls are rejected and change nothing; copies are equal to and independent of the original. Starting again from the stored cell image alone gives the same cells.",
     [H, I, F, K], "for every thin contour image, every history of removing isolated nodes, merging faces, removing bridges and merging edges (with and without rethinning), every invalid call and every restart point",
     "The tests look at cell counts of a few start images; errors in incremental updates need particular configurations several operations deep.",
     [CI, CH], [("incremental updates of cell information", CI + ": removeIsolatedNode, mergeFaces, removeBridge, mergeEdges"), ("anchors of contours", CH + ": ContourComponents, DartTraverser"), ("edge rethinning", CS + ": edgeRethinning")],
     observe=["cellImage, nodes, edges, faces, DartTraverser, contours"])
prop("P20", "Cell statistics equal a recomputation from the pixels of each cell",
     "After any history of operations the statistics kept for a cell image (mean and count of every face and edge, centre of every node, which original edges a merged edge consists of, which edges are protected) equal what is computed from scratch from the images and the current and initial cell images. The reported changed region covers every pixel whose label changed, by operations or by going to another level, since it was last cleared. Failed and undone operations leave no trace in them.",
     [H, I, F], "for every image, every history of operations, level changes and failing operations",
     "No test attaches statistics; they are updated incrementally before and after each operation, so that errors accumulate.",
     [CS, CSH, CP], [("pre/post operation hooks", CS + ": preMergeFaces, postMergeFaces, preMergeEdges, ..."), ("chains of merged edges", CSH + ": mergedEdges_")],
     state=[("faceMeans/edgeMeans", "accumulated pixel statistics", CSH)], observe=["CellStatistics members at every level"])

BI = "src/python_bindings/cppmapmodule.cxx"; BU = "src/python_bindings/cppmapmodule_utils.cxx"; MP = "python/maputils/maputils.py"; ST = "python/maputils/statistics.py"
NOPY = "No stable test imports the Python module; "
prop("P13", "Saved and copied maps equal the original and behave the same from then on",
     "Pickling a map at any point of its history and restoring it, in the same or in another process, gives the same map: the same cells with the same labels (and label ranges), geometry, rotation of edges around nodes, contours, flags, label image and pixel counts, and the same attributes. The same holds for copy.copy, copy.deepcopy and, up to labels, maputils.copyMap. From then on the restored map behaves like the original: the same operations have the same effect on both. Changing one never changes the other. An edge protection and a recorded history stored with the map are saved with it and go on working for the restored map.",
     [H, K], "for every start map, every operation history, every point at which the map is saved, restored or copied, every continuation, including maps without edges, with holes, loops, bridges and isolated nodes",
     NOPY + "and what is lost in a pickle (label ranges, order of edges, empty contours) only shows for maps with a certain history.",
     [BI, "src/geomap/cppmap.cxx", MP], [("pickle support of GeoMap", BI + ": GeoMapPickleSuite / __reduce_ex__"), ("copying", MP + ": copyMap, copyMapContents; cppmap.cxx: GeoMap copy constructor")],
     state=[("pickled state", "node positions, edges, flags, orders, label image switch", BI)], observe=["all cell iterators, darts, contours, flags, labelImage, before and after pickle.loads(pickle.dumps(map))"])
prop("P14", "A recorded history replayed on the start map reproduces the recorded map",
     "A LiveHistory records exactly the operations that were carried out, in order: refused and aborted ones leave no entry. Replaying any prefix of the history on a copy of the start map gives the map as it was after that many operations (isolated nodes apart, whose removal is not recorded), and the list of commands says the same. A saved history that was written completely reads back as the same history; a failed write is reported to the caller. After a crash the history read back from disk is one that had been written completely, or reading reports an error; it never silently reproduces another map. A detached history records nothing. The contraction kernel extracted from a map gives the same partition when applied to the map it started from.",
     [H, F, K], "for every start map, every history with refusals and exceptions at any notification, every prefix, every disk fault while writing or reading and every crash point",
     NOPY + "histories are recorded by observers, so that correctness depends on who refuses after whom and where the writing process dies.",
     [MP, "src/geomap/cppmap.cxx"], [("recording by pre/post callbacks", MP + ": LiveHistory"), ("replay and storage", MP + ": History.replay, save, load, commands")],
     state=[("History", "list of (operation name, parameters)", MP)], observe=["History entries, replayed maps, bytes written through file()"])
prop("P15", "Python observers of a map can refuse, raise, disconnect and outlive it safely",
     "Callbacks registered from Python are called exactly once per operation in order of registration with the cells concerned. A callback that returns false refuses the operation: nothing changes and the caller gets None. A callback that returns something that is not a truth value, or raises, makes the call raise that very exception; raised before the operation, nothing has changed. Disconnecting a callback (also its own, also from within a callback, also by dropping the last reference) ends its calls for good. Cells a callback keeps (also after the map is gone) and darts it keeps (as long as the map exists) are either still usable or refuse to be used; they never refer to freed memory. Observers and maps can be released in any order.",
     [H, F, S], "for every history, every number of observers, every answer or exception at every callback, every order of connecting, disconnecting and releasing observers, kept cells and the map",
     NOPY + "ownership across the language border fails only for certain orders of releasing.",
     [BI, "src/geomap/cppmap.hxx"], [("callbacks from Python", BI + ": add*Callback(s), SimpleCallback, Py*Callback classes"), ("results of callbacks", "src/geomap/cppmap.hxx: interruptable_accumulator")],
     observe=["arguments, order and number of callbacks, exceptions at the caller, kept cells, gc of observers"])
prop("P16", "Automatic merging and region growing merge cheapest first, within the rules",
     "Automatic region merging merges the neighbouring faces with the lowest current cost first, never exceeds the given number of steps or cost, never removes protected edges, and goes on with the next best candidate if a merge is refused; when it stops there is no permitted merge left below the limit. Seeded region growing always takes the cheapest candidate face next and merges it into its cheapest adjacent seed region, never merges two seeds, and leaves protected borders alone; when it ends no face next to a seed could still be merged. Cleaning functions (removing cruft, small regions, merging a face with its best neighbour, applying a face classification, waterfall) leave no work undone that is allowed, touch nothing else and report the number of operations. A minimum spanning tree spans what is connected, at minimal cost. All of them end after finitely many steps, whatever is refused and however ties are broken.",
     [H, I, F, S], "for every map, cost measure, protection, refusal at any merge, and every order in which equally expensive candidates are taken",
     NOPY + "which candidate becomes stale depends on the order of merges and refusals.",
     [MP, "src/geomap/cppmap_utils.cxx"], [("cost queue kept current by callbacks", MP + ": AutomaticMethods, DynamicCostQueue users, thresholdMergeCost"), ("region growing", MP + ": SeededRegionGrowing"), ("cleaning", MP + ": mergeFaceToBestNeighbor, removeSmallRegions, removeCruft, thresholdFaceMerging, ...")],
     state=[("queue", "candidate edges with their costs", MP)], observe=["the sequence of merges, map after the call, number of steps"])
prop("P17", "Statistics attached to a map equal a recomputation after any history",
     "Statistics attached to a map through callbacks (saddles and pass values of watersheds, basin depths, boundary samples with mean, extrema and quantiles, edge costs, tangents, original labels of merged edges) describe the current map after any history: for every existing edge and face they equal what is combined from scratch from the samples of the original edges and faces it consists of. Refused and aborted operations leave no trace. Merging, copying and saving the polyline statistics on their own gives the same. They survive pickling together with the map and go on working on the restored one, and detached ones no longer change.",
     [H, F, K], "for every start map, every history of merges, removals and splits with refusals and exceptions at any notification, every crash and restore point",
     NOPY + "statistics are updated incrementally from two callbacks per operation, so that errors need particular sequences.",
     [ST, "src/python_bindings/statistics.cxx", MP], [("incremental updates", ST + ": DetachableStatistics and subclasses"), ("polyline statistics", "src/geomap/statistics (PolylineStatistics, QuantileStatistics)")],
     state=[("per-edge attributes", "statistics stored by edge/face label", ST)], observe=["passValue, saddles, merged edges, costs, tangents for every cell after every step"])
prop("P21", "Parallel face processing gives the serial result or a clear error",
     "mapValidFacesParallel returns exactly what applying the function to every existing face in turn returns, in the same order, for every number of workers, every scheduling of the worker processes and every amount of data they return. If the function raises in a worker or a worker dies, the call ends with an exception; it never returns incomplete results and never blocks forever. No worker is left behind.",
     [S, F, I], "for every map, worker count, size of results, scheduling of processes, killed worker and raising function",
     NOPY + "deadlocks need results larger than a pipe or a certain order of process switches.",
     [MP], [("distribution to processes and collection of results", MP + ": mapValidFacesParallel, chop")], observe=["return value or exception of mapValidFacesParallel, processes still alive"])
PB = "src/python_bindings/polygon.cxx"; EH = "src/python_bindings/exporthelpers.hxx"; PH = "src/geomap/polygon.hxx"
prop("P22", "Python point arrays, iterators and views stay right and safe under change",
     "Seen from Python, Polygon, Vector2Array and Point2DArray behave like sequences of points through any history of edits (append, insert, del, item assignment, slices, extend also by itself, split, swap, reverse, copies, pickling), and length, partial area, bounding box, closedness, arc lengths, nearest point, containment and interpolation always are those of the current points. LabelLUT always gives the label everything was merged into and lists each merged label once. Indices out of range and arguments of the wrong type raise and change nothing. Iterators (over points, scanlines, cells, contours, orbits, points of darts and contours, merged labels) give exactly the elements, in order, if nothing changes meanwhile, in any interleaving. If the array, table or map they look at is changed, they never touch memory that is gone and end properly; iterators over nodes, edges and faces then give only existing cells in increasing order, each at most once, and all that exist throughout. Iterators and views keep what they need alive when everything else is released.",
     [H, S, I], "for every history of edits, Euler operations, releases and invalid accesses, and every interleaving of several iterations with them",
     NOPY + "dangling iterators and stale caches need an edit or a release at a certain moment between two steps.",
     [PB, EH, PH, BI, BU, "src/geomap/labellut.hxx"], [("index checks, slices, iterator wrappers, keeping owners alive", EH + ", " + PB), ("cell iterators, contours, orbits", BI), ("cached polygon properties", PH), ("merged labels", "src/geomap/labellut.hxx")],
     state=[("points and caches of a polygon", "length, area and bounding box with validity flags", PH)], observe=["len, items, slices, measures; elements given by iterators; exceptions; AddressSanitizer"])
prop("P23", "Positions on a dart follow its polyline exactly through any sequence of moves",
     "A DartPosition is always at a point of its dart's polyline: after any sequence of moves (to an arc length forward or backward, to the next or previous segment, out of or onto a circle that contains it) its position, arc length, segment index, start, end and length of the current segment and atEnd() agree with each other and with the point at that arc length. Moves say whether they were possible; moves beyond either end stop at that end and can be continued from there in the other direction. Copies move independently, and changes of other cells or releasing the map do not affect a position.",
     [H, I], "for every dart, every sequence of moves of several positions and their copies, every change of the map elsewhere in between",
     NOPY + "the edge sorting tests only move forward; wrong states show after a failed move or a change of direction.",
     ["src/geomap/cppmap.hxx", BI], [("incremental cursor", "src/geomap/cppmap.hxx: DartPosition, DartPointIter")],
     state=[("cursor", "current segment, its start's arc length, offset in it", "src/geomap/cppmap.hxx")], observe=["DartPosition(): position, arcLength, segmentIndex, segmentStart, segmentEnd, atEnd, results of moves"])

prop("P24", "A map can be built in any order of steps and is the map of its parts",
     "A map is built by adding nodes and edges (anywhere or next to a given dart, with or without a wanted label), removing, splitting and merging them, setting or sorting the order of darts, splitting parallel edges and initialising, in any order, also with copying or pickling in between. At every moment nodes, edges, end points, labels, counts, the cyclic order of darts around each node and the nearest node are those of the steps carried out. Sorting gives the order in which the darts leave their node in the plane, also when edges run side by side at first; splitting parallel edges gives a graph with the same nodes and connections in which they do not, and leaves the most preferred edge where it was. Initialising gives one face per outer contour, each hole in the face around it, and a label image that agrees, no matter in which order the map was built. Steps that are invalid or not possible at that stage raise and change nothing; steps an observer refuses change nothing.",
     [H, F], "for every set of edges that do not cross, every order of steps, every refusal and every invalid step at any stage",
     NOPY + "errors need particular orders of adding, removing and sorting, gaps in labels or edges that start in the same direction.",
     [M, "src/geomap/cppmap.hxx", BI], [("adding, sorting, splitting of parallel edges, initialisation", M + ": addNode, addEdge, sortEdgesDirectly, sortEdgesEventually, splitParallelEdges, setSigmaMapping, initializeMap"), ("positions in orbits", "src/geomap/cppmap.hxx: SigmaAnchor")],
     state=[("sigma orbits", "successor and predecessor of each dart around its node", M)], observe=["nodes, edges, orbits, faces, label image, exceptions"])
prop("P25", "Queries and derived graphs describe the map as it is at that moment",
     "At any point of a map's history (merging, splitting, removing, protecting, copying, pickling, refusals by observers) the queries of maputils, statistics and dartpath answer for the current map and leave it as it is: darts around a face contour by contour, one dart per neighbour, a common dart of two faces, the component of a hole and the homotopy tree, nodes of degree two or at the border, tables by label, face classes by flags, a point inside a face, contour polygon, area, length and merged shape measures, the consistency check of cached properties, all paths from a dart on and their points. Graphs derived from it are those of its faces: minimum spanning tree, regional minima, labels grown from seeds (any label but None is a seed) and waterfall labels; the dual map has the labels of the faces and edges it stands for; a map made from the edges alone has the same nodes. Protecting a face protects exactly its contours; merging by label merges exactly these two faces or, if they have no common edge or one of them is protected, nothing; removing unprotected edges leaves the protected ones in place. Faces that are gone and bridges in the dual are refused.",
     [H, F], "for every history of operations and refusals and every query at any point of it",
     NOPY + "they answer wrongly only for holes, bridges, gaps in labels, removed cells or particular flags that a history leaves behind.",
     ["python/maputils/maputils.py", M, BI], [("queries", "python/maputils/maputils.py" + ": contourDarts, neighborFaces, holeComponent, findCommonDart, extractFaceClasses, mapValidFaces, mapValidEdges, protectFace, mergeFacesByLabel, removeUnProtectedEdges"), ("graphs", "python/maputils/maputils.py" + ": minimumSpanningTree, regionalMinima, seededRegionGrowingStatic, waterfallLabels, dualMap, mapFromEdges"), ("paths and measures", "python/maputils/dartpath.py: Path, allContinuations; python/maputils/statistics.py: commonBoundaryDarts, mergedContourLength")],
     state=[("cells of the map", "darts with their faces and nodes, point lists, flags", M)], observe=["labels, lists and values returned, exceptions, the map afterwards"])
WS = "src/geomap/vigra/subpixel_watershed.hxx"; WB = "src/python_bindings/subpixel_watersheds.cxx"
prop("P26", "A watershed search answers as if it had been asked nothing else before",
     "Any number of subpixel watershed searches can be used side by side and asked for saddles, maxima, minima and flow lines in any order and any number of times. The first question starts the search, a later search replaces the former one completely. Every answer depends only on the image as it was when the object was made, the parameters and mask of its last search and, for flow lines, the current step size: it is the same as that of an object made and used for this question alone, also after the application has overwritten or released image or mask, changed parameters without searching again, or asked for something invalid. The lists start with None and contain critical points of their kind inside the image, no two nearer than the minimal distance; a mask only restricts where the search starts. A flow line contains its saddle at the index given, ascends to both sides and ends exactly at the maximum it names; flow lines above a threshold are those of the saddles above it, in their order. Flow lines added to a map, also in several batches, become edges with their number, points and maxima as nodes, or are returned. Invalid indices, masks of another size and images too small for the search are refused without effect.",
     [H, I, F], "for every image, spline order, sequence of searches, parameter changes, questions, invalid requests and releases, on several objects in any interleaving",
     NOPY + "answers of another search, of stale tables or of memory outside the lists show only after certain sequences of searches and questions.",
     [WS, WB, MP], [("search and its results", WS + ": findCriticalPoints, updateMaxImage, nearestMaximum, flowLine"), ("questions from Python", WB + ": SPWSWrapper"), ("flow lines as edges", MP + ": addFlowLinesToMap")],
     state=[("critical points and table of maxima by pixel", "minima_, saddles_, maxima_, maxImage_ of the last search", WS)], observe=["saddles(), maxima(), minima(), edge(), edges(), exceptions; AddressSanitizer"])
DS = "src/geomap/vigra/dsl.hxx"
prop("P27", "Incremental line recognition is exact through any sequence of points",
     "A digital straight line of the first octant can be extended pixel by pixel at both ends in any order (seen from its other end). A pixel is accepted exactly if some digital straight line contains all accepted pixels and this one; from then on the parameters a, b and pos are those of the thinnest such line, whatever the order. Refused, repeated, distant and invalid pixels leave the line as it was; lines outside of the first octant refuse all pixels. Copies and saved and restored lines are equal and independent. Mirroring and conversion to a 4-connected line contain exactly the corresponding pixels; mirroring twice gives the same line. The tangent at a point of a contour is the longest symmetric digital straight segment around it that uses two directions, also across the start of a closed contour; points at the ends of open contours, missing codes and codes that do not close are refused.",
     [H, I, F], "for every sequence of pixels at both ends of several lines, with refusals, copies, saving and mirroring in between, and every contour",
     NOPY + "wrong parameters show only after particular alternations of both ends, and only for later pixels.",
     [DS, "src/python_bindings/dsl.cxx"], [("incremental update of slope and leaning lines", DS + ": DigitalStraightLine::addPoint"), ("symmetric extension along a contour", DS + ": tangentDSL")],
     state=[("line", "a, b, pos", DS)], observe=["addPoint(), a, b, pos, contains(), tangentDSL(), exceptions"])
