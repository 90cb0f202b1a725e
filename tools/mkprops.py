import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,observe=None,hook=False):
    files=[f if f.count("/") else f for f in files]
    a={"files":files,"mechanism":[{"name":m.strip(),"where":files[0]} for m in mech.split(";")]}
    if state:a["state"]=[{"name":s.strip(),"meaning":s.strip(),"where":files[0]} for s in state.split(",")]
    if observe:a["observe_at"]=[o.strip() for o in observe.split(";")]
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
D="include/richdem/depressions/"
p("C01","Depression filling yields the minimal drained surface, by every variant",
 "Filling all depressions of an elevation raster (8- or 4-connected), by any of the offered algorithms and for any element type, gives for every cell the lowest level at which water can leave it along a path to the raster's edge: it never lowers a cell, leaves edge cells alone and raises no cell more than necessary. Consequently all filling algorithms agree cell for cell and filling a filled raster changes nothing.",
 ["inputs"],"all rasters (dimensions incl. 1xN, element types incl. unsigned and float, ties, nested depressions) and all fill variants/topologies",
 "Tests compare a few stored rasters and random ones variant-against-variant; they cannot quantify over every raster nor state minimality, so a common error or one needing a rare shape passes.",
 [D+"Barnes2014.hpp",D+"Zhou2016.hpp",D+"Wei2018.hpp",D+"depressions.hpp","include/richdem/common/grid_cell.hpp"],
 "priority queue flood from the edges with closed set and pit/trace queues","elevations, closed set, open queue, pit queue","return of the fill functions")
p("C02","Epsilon filling leaves every data cell strictly draining to the edge",
 "After epsilon-filling a floating-point raster no cell is lower than before, edge cells are unchanged, and from every data cell a path of strictly decreasing elevations leads to the raster's edge (or to a NoData cell). Cells are raised only by the minimal-fill amount plus at most one representable step per cell, and integer rasters are refused rather than corrupted.",
 ["inputs"],"all floating point rasters incl. NoData, large flats, values where one ulp matters",
 "The tests have no check that epsilon surfaces drain strictly; it must hold for each cell of every raster including where increments pile up over neighbouring terrain.",
 [D+"Barnes2014.hpp",D+"depressions.hpp"],"nextafter increments carried through pit queue and priority queue","elevations, open/pit queues","return of PriorityFloodEpsilon")
p("C03","Depression detection, pit masks and size-limited filling agree with filling",
 "A raster is reported as having depressions exactly when complete filling would raise some cell, and the pit mask marks exactly the raised cells (NoData marked separately). Filling only depressions of up to N cells raises precisely those connected groups of to-be-raised cells having at most N cells to their filled level and leaves all others untouched.",
 ["inputs"],"all rasters and all size limits","Only stored examples are tested; the iff/exactly claims quantify over all rasters and limits.",
 [D+"Barnes2014.hpp",D+"depressions.hpp"],"priority flood variants writing masks / tracking per-pit cell lists","mask raster, list of pit cells","return of HasDepressions, pit_mask, max_dep fill")
p("C04","Flood watersheds and flood flow directions drain every cell to the edge",
 "Watershed labelling by flooding gives every data cell exactly one label, each label being a connected region containing an edge outlet, and, when filling at the same time, leaves the minimal filled surface. Flow directions produced by flooding lead from every data cell, without cycles, off the raster along a path whose highest point is the lowest possible one.",
 ["inputs"],"all rasters with or without NoData","No test asserts acyclicity, connectivity, or optimal pour points for arbitrary rasters.",
 [D+"Barnes2014.hpp"],"labels/directions assigned by the cell that first reaches a neighbour during the flood","labels or directions raster, open queue","return of PriorityFloodWatersheds / PriorityFloodFlowdirs")
p("C05","Breaching removes depressions by digging, within its limits",
 "Without filling, breaching raises no cell except single pit cells, and those only to their lowest neighbour; complete breaching leaves no interior data cell from which water cannot descend, without ever rising, to the raster's edge. Selective breaching digs no path longer or deeper than allowed, constrained breaching lowers no cell by more than the allowed depth, nor beyond the allowed length, and either one, with filling enabled, leaves no depressions. Paths are dug down to the level of a pit, through no ground higher than water in the pit has to rise to leave it.",
 ["inputs","configurations"],"all rasters, modes, path-length and path-depth limits, fill or no fill","Tests check one stored example and random agreement with HasDepressions for a few modes; limits and lower-only claims hold for every raster and limit.",
 [D+"Lindsay2016.hpp",D+"depressions.hpp"],"priority-first search with backlinks from the edge, path lowering","backlinks, visited states, path costs","return of the breaching functions")
p("C06","Flat resolution makes every drainable flat drain without changing other terrain",
 "Flats are exactly the interior data cells without a lower neighbour (cells on a flat's rim that drain are not), and the flat mask orders every cell of a flat that has an outlet so that each has a same-flat neighbour strictly nearer draining, the cells farther from higher ground and nearer lower ground ranking lower. Resolving by flow directions gives every cell of such flats a direction leading, within the flat, without cycles to its outlet; flats without outlet stay unresolved and cells that already drain keep their directions.",
 ["inputs"],"all rasters including flats touching edges, NoData and each other diagonally","Tests do not examine masks or labels; acyclicity and coverage quantify over arbitrary flat shapes.",
 ["include/richdem/flats/find_flats.hpp","include/richdem/flats/flat_resolution.hpp","include/richdem/flats/Barnes2014.hpp"],"breadth-first gradients away from higher and towards lower terrain, region labels","edge queues, labels, flat mask, flat heights","return of GetFlatMask / ResolveFlatsEpsilon / flow directions")
p("C07","Flow metrics give downhill shares summing to one",
 "For every flow metric, each data cell either keeps all its flow (marked no-flow), or passes to its neighbours non-negative shares that sum to one, only to in-raster data cells that are strictly lower; a cell with NoData is marked as such. Single-direction metrics send all flow to one neighbour of steepest (or lowest, as the metric defines) descent, and multi-direction metrics share in proportion to the metric's slope weighting.",
 ["inputs","configurations"],"all rasters, all metrics, all exponents","Flow metrics are not tested at all; the share and descent constraints are universal over cells of any raster.",
 ["include/richdem/flowmet/d8_flowdirs.hpp","include/richdem/flowmet/Fairfield1991.hpp","include/richdem/flowmet/Freeman1991.hpp","include/richdem/flowmet/Holmgren1994.hpp","include/richdem/flowmet/Quinn1991.hpp","include/richdem/flowmet/Tarboton1997.hpp","include/richdem/flowmet/OCallaghan1984.hpp"],"per-cell neighbour scan writing a 9-slot proportion record","proportions array","return of FM_*")
p("C08","Flow accumulation conserves mass along any flow proportions",
 "Given flow proportions without cycles, accumulated flow at every data cell equals the cell's own weight plus the shares received from its upstream neighbours, independent of traversal order. Hence the total reaching terminal cells equals the total weight put in, and NoData cells are marked as such.",
 ["inputs","schedules"],"all acyclic proportion fields, weights, and thread schedules","Existing tests compare D8 on stored grids; conservation must hold for every divergent flow field.",
 ["include/richdem/methods/flow_accumulation_generic.hpp","include/richdem/methods/flow_accumulation.hpp"],"dependency counting topological propagation","dependency counts, ready queue, accumulation raster","return of FlowAccumulation / FA_*")
p("C09","D8 products: lowest-neighbour directions, upstream counts, upslope sets",
 "D8 directions point from each interior data cell to its lowest neighbour when that is lower (and otherwise nowhere), with edge cells sent off the raster; D8 accumulation of any acyclic direction raster is at every cell exactly the number of cells draining through it, itself included. The upslope set of a cell or line is exactly the set of cells whose flow path reaches it.",
 ["inputs"],"all rasters / all direction rasters incl. NoData and terminal cells","Tests compare stored examples; counts and sets are claims over all direction graphs.",
 ["include/richdem/methods/d8_methods.hpp","include/richdem/flowmet/d8_flowdirs.hpp"],"dependency counting; reverse breadth-first search","dependency raster, queue","return of d8_flow_directions / d8_flow_accum / upslope functions")
p("C10","D-infinity directions point down the steepest facet and accumulate without loss",
 "D-infinity directions of interior cells lie on the facet of steepest descent, within that facet, and cells with no descent are marked no-flow. D-infinity accumulation splits each cell's flow between the two facet neighbours in shares that sum to one with the nearer direction getting the greater share, so that flow is conserved.",
 ["inputs"],"all rasters","No existing test covers these functions.",
 ["include/richdem/flowmet/dinf_flowdirs.hpp","include/richdem/methods/dinf_methods.hpp","include/richdem/flowmet/Tarboton1997.hpp"],"facet slope maximisation, angle arithmetic","angle raster, area raster, dependencies","return of dinf_flow_directions / dinf_upslope_area")
p("C11","The depression hierarchy partitions the terrain and nests correctly",
 "Every data cell belongs to exactly one leaf depression or to the ocean, each leaf has exactly one pit and one outlet, and the depressions form a forest: each non-leaf has exactly two children that list it as parent, and outlets are the lowest point connecting the merged depressions with their surroundings. Following out-links never cycles, and each depression spills at its outlet elevation into the depression that actually lies across the outlet. The last layer marks exactly the cells below the outlet of a depression that contains them or receives their spill.",
 ["inputs"],"all rasters with ocean cells, ties, nested and ocean-linked depressions","Tests examine small cases and volume invariants at random; the structural invariants and outlet minimality are universal over rasters.",
 [D+"depression_hierarchy.hpp","include/richdem/common/disjoint_dense_int_set.hpp","include/richdem/common/grid_cell.hpp"],"flood from pits and ocean with stable priority queue, outlets sorted and merged by union-find","labels, outlet database, union-find, depression list","return of GetDepressionHierarchy")
p("C12","Depression volumes and cell counts equal what terrain holds below the outlet",
 "For every depression in the hierarchy the recorded cell count and volume equal the count of its subtree's cells at or below its outlet and the sum over them of (outlet elevation minus elevation); children's volumes never exceed their parent's. Flow directions issued with the hierarchy point to a lowest neighbour and lead every cell to its leaf's pit or the ocean without cycles.",
 ["inputs"],"all rasters","Tests verify totals at random sizes with one thread only; equality is required cell by cell for each depression on every raster and thread count.",
 [D+"depression_hierarchy.hpp"],"marginal volumes accumulated up the hierarchy in parallel","cell counts, elevation sums, volumes","return of GetDepressionHierarchy")
p("C13","Fill-Spill-Merge conserves water and levels lakes physically",
 "Routing any non-negative initial water over terrain conserves water between what stands in depressions and what reaches the ocean, leaves no water on cells outside flooded depressions, and each lake has one flat level not above its outlet. Water overflows a depression only when it is full, in the direction of its outlet, and the result does not depend on how the water was first distributed within a depression.",
 ["inputs","histories"],"all terrains, water distributions, and repeated application","Tests cover random totals and fixed examples; per-lake level, spill order and repeatability quantify over all terrains and waters.",
 [D+"fill_spill_merge.hpp",D+"depression_hierarchy.hpp"],"water moved to pits, overflow cascades up the hierarchy, then lake surfaces found by flooding","water volumes per depression, water table","return of FillSpillMerge")
p("C14","Raster containers behave as a plain two-dimensional array through any history",
 "Through any sequence of creations, copies, moves, resizes, expansions, flips, transpositions, row and column reads, NoData settings and writes, a raster's cells, dimensions, NoData tests, neighbour lookups and comparisons are those of a plain width-by-height grid subjected to the same operations. Flipping twice or transposing twice restores the raster, and copies are independent of their source.",
 ["histories","inputs"],"all operation sequences and shapes, several element types","Tests run a few fixed sequences; aliasing and stale-state errors need particular sequences and shapes.",
 ["include/richdem/common/Array2D.hpp","include/richdem/common/ManagedVector.hpp","include/richdem/common/Array3D.hpp"],"flat buffer with view dimensions and neighbour offsets","buffer, view_width/height, cached data-cell count","public methods of the raster class")
p("C15","Saved rasters reload identically",
 "A raster saved to the native format or through GDAL and loaded again (whole, or any window of it) has the same cells, dimensions, NoData value, projection and geotransform (a window also keeps the position it was read from, and is saved back with its origin shifted there), and processing history only grows. Dumping a raster to its cache file and reloading it any number of times between modifications never loses a modification.",
 ["histories","inputs"],"all rasters/types and all sequences of save, dump, modify, load","Only loading of stored files is tested; round trips over types, windows and sequences are not.",
 ["include/richdem/common/Array2D.hpp","include/richdem/common/loaders.hpp","include/richdem/common/gdal.hpp"],"binary cache format; GDAL raster IO with windows and offsets","buffer, cache filename, from_cache flag, metadata","save/load methods")
p("C16","Memory wrappers free exactly what they own",
 "Through any sequence of constructions, wraps of foreign memory, copies, moves, assignments, resizes and destructions, storage owned by a buffer is freed exactly once and foreign memory is never freed or reallocated. A wrapped raster writes through to the caller's memory, copies of it are independent, and resizing foreign memory is refused.",
 ["histories"],"all sequences of buffer operations over several objects","A test covers a handful of constructions; ownership bugs need particular chains of moves and assignments.",
 ["include/richdem/common/ManagedVector.hpp","include/richdem/common/Array2D.hpp"],"unique_ptr plus owned flag","data pointer, size, owned flag per object; set of live blocks","public methods; allocator calls")
p("C17","The tile cache is transparent",
 "A tiled raster accessed through a bounded cache returns for every read the value last written to that cell (or that of its file), whatever the cache size, access order, evictions, lazily applied fills and null tiles. The cache never holds more tiles than its capacity and evicts the least recently used.",
 ["histories","configurations"],"all access histories, layouts with gaps, cache sizes","No test exercises the tile cache; lost updates need an eviction between a write and a read.",
 ["include/richdem/tiled/A2Array2D.hpp","include/richdem/tiled/lru.hpp","include/richdem/common/Array2D.hpp"],"LRU list plus dump/load of tiles","LRU order, loaded/created/do_set_all flags, tile files","public methods of tiled raster and LRU")
p("C18","Tiled parallel flow accumulation equals whole-raster accumulation",
 "For any direction raster, any division into tiles (including gaps and ragged edge tiles), any number of worker processes, any message arrival order and any retention strategy, the assembled output of the distributed D8 flow accumulation equals the accumulation computed on the whole raster at once. Every job is handed out and answered exactly once and all processes terminate.",
 ["schedules","inputs","configurations"],"all direction rasters x tilings x process counts x message orders x retention strategies","The small test only checks that something is written; values for few tilings and natural schedules only.",
 ["programs/parallel_d8_accum/main.cpp","programs/parallel_d8_accum/perimeters.hpp","include/richdem/common/communication.hpp"],"perimeter links per tile, producer-side accumulation over links, second pass adds offsets","links, perimeter accumulation, job grid, message queues","output tiles; messages between processes")
p("C19","Tiled parallel priority-flood equals whole-raster filling",
 "For any elevation raster, any division into tiles (including gaps), any number of worker processes, any message arrival order and any retention strategy, the distributed depression filling produces exactly the surface of filling the whole raster at once. Every job is handed out and answered exactly once and all processes terminate.",
 ["schedules","inputs","configurations"],"all rasters x tilings x process counts x message orders x retention strategies","No stable test runs this program at all.",
 ["programs/parallel_priority_flood/main.cpp","programs/parallel_priority_flood/Zhou2016pf.hpp","include/richdem/common/communication.hpp"],"per-tile watershed graph, producer-side aggregated flood, second pass raises watersheds","labels, spillover graphs, master graph, message queues","output tiles; messages between processes")
p("C20","Layout files describe the same tile grid to writer and reader",
 "Reading a layout file visits every grid position once in row-major order and yields exactly the name (or gap), coordinates and row starts that were written, names being trimmed of blanks and resolved relative to the file. Empty files, and files whose rows disagree in length by more than a missing trailing gap, are rejected.",
 ["inputs","histories"],"all grids of names with gaps","No test covers layout files.",
 ["include/richdem/common/Layoutfile.hpp"],"comma separated parsing with trailing-gap repair","grid of names, cursor","LayoutfileReader / LayoutfileWriter")
p("C21","Priority queues deliver cells in order, first-in-first-out among equals",
 "Every sequence of insertions and removals on the cell queues delivers cells in non-decreasing elevation; the stable variant delivers equal-elevation cells in insertion order; the monotone integer queue delivers the same order of keys as an ordinary one. NaN keys are taken as lower than every number.",
 ["histories"],"all push/pop sequences","Tests use one insertion order.",
 ["include/richdem/common/grid_cell.hpp","include/richdem/common/radix_heap.hpp"],"binary heap with insertion counters; radix buckets","heap contents, counters, buckets","push/top/pop results")
p("C22","Disjoint sets answer connectivity exactly",
 "After any sequence of unions, merges and lookups two elements are reported as being in the same set exactly when the operations connected them, and merging one set into another keeps the target's representative. Sets created implicitly by naming a larger element are singletons.",
 ["histories"],"all operation sequences","Only exercised indirectly.",
 ["include/richdem/common/disjoint_dense_int_set.hpp"],"parent array with path compression and union by rank","parents, ranks","findSet / unionSet / mergeAintoB / sameSet")
p("C23","Results do not depend on the number of threads",
 "Running any raster operation (filling, hierarchy building, flow directions, flat resolution, accumulation, terrain attributes) with any number of threads gives the same result as with one; flat labels may be numbered otherwise, and operations that draw random numbers are excepted. No schedule of its internal parallel loops may lose or duplicate an update.",
 ["schedules","inputs"],"all rasters, thread counts and schedules of the parallel loops","The tests run with a single thread.",
 [D+"depression_hierarchy.hpp","include/richdem/flats/flat_resolution.hpp","include/richdem/flats/find_flats.hpp","include/richdem/methods/flow_accumulation_generic.hpp","include/richdem/methods/terrain_attributes.hpp","include/richdem/misc/misc_methods.hpp"],"OpenMP loops with atomics, criticals and reductions","shared counters, queues, rasters","return values under 1..N threads")
p("C24","Random numbers and generated terrain are reproducible from their seed",
 "After seeding with a non-zero seed, each thread's sequence of random values and any generated terrain depend only on that seed, and a saved generator state resumes exactly where it was saved. Different seeds give different sequences on every thread, the threads of one seed draw from different sequences, and integer draws stay within their inclusive bounds. (Terrain seeds are told apart modulo 2^31-1.)",
 ["inputs","histories"],"all seeds and interleavings of draws, saves and restores","Tests use randomness but never check reproducibility.",
 ["src/random.cpp","include/richdem/common/random.hpp","src/terrain_generation/terrain_generation.cpp","src/terrain_generation/PerlinNoise.cpp"],"per-thread engines","engine state per thread","seed_rand, uniform_rand_*, Save/SetRandomState, generate_perlin_terrain")
p("C25","Region fills and perimeter counts match the raster's connectivity",
 "A bucket fill sets exactly the cells of the checked value that are connected to a seed through cells of that value (not crossing cells already set), in 8- or 4-connectivity, and nothing else. Perimeter measures count each exposed cell or cell edge once.",
 ["inputs"],"all rasters, seeds, topologies","Two examples are tested.",
 ["include/richdem/misc/misc_methods.hpp"],"stack-based flood; neighbour scan reduction","seed stack, set raster","return of BucketFill*/Perimeter")
p("C26","Terrain attributes follow their finite-difference definitions",
 "Slope, aspect and curvature at each data cell equal the values of their published 3x3 finite-difference formulae with missing neighbours replaced by the focal cell; NoData cells stay NoData and no data cell becomes NoData. The four slope units are consistent with one another, the aspect of a flat surface is -1, the surface area is the sum of the triangles joining cell centres, and SPI and CTI follow from accumulation and slope.",
 ["inputs"],"all rasters, cell sizes, z-scales","Not tested.",
 ["include/richdem/methods/terrain_attributes.hpp","include/richdem/misc/misc_methods.hpp"],"3x3 window kernels in a parallel loop","attribute raster","return of TA_*")
p("C27","The Python interface changes what it says it changes and nothing else",
 "Calling a richdem function from Python leaves its arguments as they were unless it is told to work in place, and then changes exactly the array given (and whatever shares its memory), for every memory layout, slice or element type; the result satisfies the same contract as the library's algorithm, carries the source's geotransform, projection and metadata with the call appended to the processing history, and invalid calls are refused without altering data. Saving and loading a raster, and the rd_* commands of the package, keep values, NoData and metadata.",
 ["inputs","histories"],"all sequences of calls on arrays sharing memory, all element types, layouts and files","The wrapper has no tests in this suite.",
 ["wrappers/pyrichdem/richdem/__init__.py","wrappers/pyrichdem/richdem/cli.py","wrappers/pyrichdem/src/pywrapper.hpp"],"numpy arrays wrapped as Array2D without owning memory","array buffers and their windows, metadata dictionaries, files","richdem.* functions, rdarray attributes, GeoTIFF files")
p("C28","The command-line programs do to files what they say, and nothing else",
 "Each rd_* program computes from its input file what the library's algorithm computes (flooding, breaching, masks, directions, accumulation, attributes, depression hierarchy, fill-spill-merge, translation of TauDEM directions), leaves every file it reads as it was, and writes a raster that lies where its input lay: values, NoData, size, geotransform, projection, metadata and processing history are carried on unless changing them is the program's purpose; enlarged and merged rasters keep every cell at its place on the ground. Programs that report (comparison, histogram, history, display, inspection, NoData, geotransform, has depressions) report what is in the file. A program that cannot do what it was asked exits with a failure code.",
 ["inputs","histories"],"all sequences of programs on GeoTIFF files of every type, orientation and metadata","Not tested.",
 ["apps/*.cpp","apps/router.hpp","include/richdem/common/Array2D.hpp","include/richdem/tiled/A2Array2D.hpp"],"one program per operation over Array2D/A2Array2D, the type chosen by apps/router.hpp","files","output files, exit code and printed report")
p("C29","Generated terrain is one smooth surface, the same at any resolution",
 "The terrain generated for a seed is a slice (at height 0.8) of improved Perlin gradient noise, scaled to 0..1 and ten lattice cells across whatever the raster's size: every value is the blend of what the surrounding lattice points contribute through one unit-cube edge gradient each, so that the surface is continuous and smooth across lattice lines, lies between 0 and 1, and a coarser raster of the same seed is a subsample of a finer one. The gradients are spread over all directions, and only the raster's cells are changed (not its NoData value, projection, geotransform or metadata).",
 ["inputs"],"all seeds and sizes","Generated terrain is used as test input; its values are never checked.",
 ["src/terrain_generation/terrain_generation.cpp","src/terrain_generation/PerlinNoise.cpp"],"hash of lattice coordinates by a shuffled permutation; fade curves; trilinear blend","raster","generate_perlin_terrain")
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps(x)+"\n")
print(len(P))
