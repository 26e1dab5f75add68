"""What is simulated for each property: programs, how many runs, what is real and what is a stub."""
import os

BASE = ["-std=c++20", "-g1", "-include", "optional", "-include", "iostream", "@REPOINC@", "-fno-omit-frame-pointer",
        "-Wno-everything"]
ASAN = BASE + ["-O1", "-fsanitize=address", "-ftrivial-auto-var-init=pattern"]
LASAN = ["-fsanitize=address"]

CORE = ("core/sim.cpp", ())


def asan(sources, lib=()):
    return {"sources": list(sources) + [CORE] + [("@REPO@/geomc/" + l, ()) for l in lib], "flags": ASAN,
            "link_flags": LASAN, "link": []}


def threads(sources, lib=(), extra=()):
    """Programs whose library code reports every memory access to sched.cpp (compiled, not linked, with -fsanitize=thread)."""
    t = ("-fsanitize=thread",)
    return {"sources": [(s, t + tuple(f)) for s, f in sources] + [("core/sim.cpp", ("-DSIM_NO_ALLOC_SEAM",)), ("core/sched.cpp", ())]
            + [(e, ()) for e in extra] + [("@REPO@/geomc/" + l, t) for l in lib],
            "flags": BASE + ["-O1", "-ftrivial-auto-var-init=pattern"], "link_flags": [], "link": ["-lpthread"]}


def _library():
    """Every source file of the library, as the repository's own build takes them."""
    root = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "geomc")
    return sorted(os.path.relpath(os.path.join(d, f), root) for d, _, fs in os.walk(root) for f in fs if f.endswith(".cpp"))


LIB = _library()

SCENARIOS = {
    "gens": threads([("gens.cpp", ())], lib=LIB, extra=["core/clock.cpp"]),
    "constuse": threads([("constuse.cpp", ())] + [("const/%s.cpp" % n, ()) for n in ("shapes", "linalg", "functions", "containers", "more")], lib=LIB),
    "shared": threads([("shared.cpp", ())], lib=LIB),
    "smallstorage": asan([("smallstorage.cpp", ("-DSIM_K=%d" % k,)) for k in range(5)] + [("smallstorage.cpp", ())]),
    "tree": asan([("tree.cpp", ("-DSIM_K=%d" % k,)) for k in range(4)] + [("tree.cpp", ())]),
    "storage": asan([("storage.cpp", ("-DSIM_K=%d" % k,)) for k in range(5)] + [("storage.cpp", ())]),
    "rng": asan([("rng.cpp", ())], lib=LIB),
    "lattice": asan([("lattice.cpp", ())]),
    "raster": asan([("raster.cpp", ())]),
    "iterate": asan([("iterate.cpp", ())], lib=["GeomException.cpp"]),
    "xform": asan([("xform.cpp", ())], lib=["GeomException.cpp"]),
    "boxes": asan([("boxes.cpp", ())], lib=["GeomException.cpp"]),
    "harmonics": asan([("harmonics.cpp", ())]),
    "keys": asan([("keys.cpp", ())], lib=LIB),
    "intersect": asan([("intersect.cpp", ())], lib=["GeomException.cpp"]),
    "noise": asan([("noise.cpp", ())], lib=LIB),
    "matrix": asan([("matrix_ops.cpp", ("-DSIM_K=%d" % k, "-O0")) for k in range(16)] + [("matrix_ops.cpp", ("-O0",)), ("matrix.cpp", ())], lib=["GeomException.cpp"]),
    "deque": asan([("deque.cpp", ("-DSIM_K=%d" % k,)) for k in range(4)] + [("deque.cpp", ())]),
}

ALLOC_REAL = ["operator new/delete seam over the process allocator with seeded refusals"]

CHECKS = {
    "C01": {
        "parts": [{"scenario": "deque", "quick": 600000, "thorough": 8000000}],
        "rule": "Seeded histories over three Deque instances (inline capacity 0/1/2/4/7, four element kinds), swarm-selected operations, allocation and element-operation failures armed at seeded points.",
        "states": "distinct (operation, sizes and capacities of all queues, fault fired) tuples",
        "real": ["geom::Deque (all of geomc/Deque.h)"],
        "stub": ["element types (instrumented)", "global operator new/delete (seam)"],
        "assumptions": ["single-threaded use of one Deque", "a moved-from element may hold any value"],
    },
    "C02": {
        "parts": [{"scenario": "deque", "quick": 600000, "thorough": 8000000}],
        "rule": "Seeded histories over three Deque instances (inline capacity 0/1/2/4/7, four element kinds), swarm-selected operations, allocation and element-operation failures armed at seeded points; every element construction, destruction, move and allocation is an event checked against registries.",
        "states": "distinct (operation, sizes and capacities of all queues, fault fired) tuples",
        "real": ["geom::Deque (all of geomc/Deque.h)"],
        "stub": ["element types (instrumented)", "global operator new/delete (seam)"],
        "assumptions": ["destructors do not throw"],
    },
    "C03": {
        "parts": [{"scenario": "smallstorage", "quick": 600000, "thorough": 8000000}],
        "rule": "Seeded histories over three SmallStorage instances (inline capacity 0/1/3/6, five element kinds), swarm-selected operations, allocation and element-operation failures armed at seeded points.",
        "states": "distinct (operation, sizes and capacities of all arrays, fault fired) tuples",
        "real": ["geom::SmallStorage (all of geomc/SmallStorage.h)"],
        "stub": ["element types (instrumented)", "global operator new/delete (seam)"],
        "assumptions": ["single-threaded use of one array", "a moved-from element may hold any value"],
    },
    "C04": {
        "parts": [{"scenario": "smallstorage", "quick": 600000, "thorough": 8000000}],
        "rule": "Seeded histories over three SmallStorage instances (inline capacity 0/1/3/6, five element kinds), swarm-selected operations, allocation and element-operation failures armed at seeded points; every element construction, destruction, move and allocation is an event checked against registries.",
        "states": "distinct (operation, sizes and capacities of all arrays, fault fired) tuples",
        "real": ["geom::SmallStorage (all of geomc/SmallStorage.h)"],
        "stub": ["element types (instrumented)", "global operator new/delete (seam)"],
        "assumptions": ["destructors do not throw"],
    },
    "C05": {
        "parts": [{"scenario": "storage", "quick": 600000, "thorough": 10000000}],
        "rule": "Seeded histories over four storage objects of one class (unique, plain, sized, wrapped, and the three generic policies; dynamic, 1 and 4 elements; five element kinds), with allocation and element-operation failures armed at seeded points; contents, sharing, live elements and blocks are compared with a model after every step.",
        "states": "distinct (operation, class, element kind, sizes, fault) tuples",
        "real": ["geom::Storage", "geom::SizedStorage", "geom::UniqueStorage", "geom::WrappedStorage", "geom::GenericStorage", "boost::shared_array"],
        "stub": ["element types (instrumented)", "global operator new/delete (seam)"],
        "assumptions": ["static storage is built from exactly as many elements as it holds", "a storage or element that was moved from may hold any value"],
    },
    "C06": {
        "parts": [{"scenario": "shared", "quick": 120000, "thorough": 3000000}],
        "rule": "Seeded histories of 2-4 simulated threads that copy, assign, move, drop, read, publish and take their own handles to common reference-counted data (four shared storage classes, three shared matrix classes, two rasters, three noise functions), with refused allocations and seeded preemptions at every memory access, atomic operation and allocation.",
        "states": "distinct (operation of the suspended thread, operation of the resumed thread) pairs at preemptions",
        "real": ["geom::Storage and the classes on it", "geom::SimpleMatrix (shared)", "geom::Raster", "geom::PerlinNoise", "boost::shared_array"],
        "stub": ["thread scheduler", "global operator new/delete (seam)"],
        "assumptions": ["one thread uses a handle at a time (a constant handle may be copied by all)", "sequentially consistent execution; weaker orders are judged by the happens-before race detector"],
    },
    "C07": {
        "parts": [{"scenario": "tree", "quick": 300000, "thorough": 5000000}],
        "rule": "Seeded histories over three Tree instances (four combinations of node and item element kinds), swarm-selected insertions, splits, adoptions (also of the tree itself), erasures, searches and queries with valid and invalid positions; allocation, element-operation and callback failures armed at seeded points; the whole structure is compared with a model through const and non-const handles after every step.",
        "states": "distinct (operation, shapes of all trees, fault fired) tuples",
        "real": ["geom::Tree, Subtree, ConstSubtree, QueryIterator (all of geomc/Tree.h)"],
        "stub": ["element types (instrumented)", "callbacks (comparison, bounds, tests)", "global operator new/delete (seam)"],
        "assumptions": ["positions of items belong to the node, as documented", "a tree that was moved from is only destroyed"],
    },
    "C08": {
        "parts": [{"scenario": "tree", "quick": 300000, "thorough": 5000000}],
        "rule": "Seeded histories over three Tree instances (four combinations of node and item element kinds), swarm-selected insertions, splits, adoptions (also of the tree itself), erasures, searches and queries with valid and invalid positions; allocation, element-operation and callback failures armed at seeded points; the whole structure is compared with a model through const and non-const handles after every step.",
        "states": "distinct (operation, shapes of all trees, fault fired) tuples",
        "real": ["geom::Tree, Subtree, ConstSubtree, QueryIterator (all of geomc/Tree.h)"],
        "stub": ["element types (instrumented)", "callbacks (comparison, bounds, tests)", "global operator new/delete (seam)"],
        "assumptions": ["destructors do not throw", "a split that is interrupted may have moved some of the items"],
    },
    "C09": {
        "parts": [{"scenario": "gens", "quick": 60000, "thorough": 3000000}],
        "rule": "Seeded histories of 1-4 simulated threads over their own generators (seed, reseed, draws of every type, samples, shuffles, copies, assignments, drops) with other generators default-constructed and used in between, clock changes, and seeded preemptions at memory accesses; every life since seeding is replayed on a fresh generator and compared bit for bit.",
        "states": "distinct (operation pairs at a preemption; generator kind, seeding form, draw type) tuples",
        "real": ["geom::LCRand", "geom::MTRand", "geom::XoshiroRand", "geom::Random draws", "geom::Sampler", "geom::permute"],
        "stub": ["clocks (simulated)", "thread scheduling (simulated)", "global operator new/delete (seam)"],
        "assumptions": ["a generator is used by one thread at a time"],
    },
    "C13": {
        "parts": [{"scenario": "gens", "quick": 60000, "thorough": 3000000}],
        "rule": "Seeded histories of default constructions of the three generators on 1-4 simulated threads, clocks frozen, ticking, coarse or jumping either way, and seeded preemptions at memory accesses; first six words compared pairwise, and a happens-before race detector watches every access.",
        "states": "distinct (operation pairs at a preemption) tuples",
        "real": ["geom::LCRand", "geom::MTRand", "geom::XoshiroRand"],
        "stub": ["clocks (simulated)", "thread scheduling (simulated)", "global operator new/delete (seam)"],
        "assumptions": ["fewer than 2^64 generators per process"],
    },
    "C15": {
        "parts": [{"scenario": "constuse", "quick": 150000, "thorough": 2000000}],
        "rule": "Seeded histories of 2-4 simulated threads calling const members of shared objects and any members of private ones (shapes, vectors, transforms, matrices, decompositions, noise, rasters, harmonics, samplers, containers), with refused allocations and seeded preemptions at every memory access, atomic operation, lock and allocation; each result is compared bit for bit with the same call on one thread, on the same and on fresh objects, and a happens-before race detector watches every access.",
        "states": "distinct (operation of the suspended thread, operation of the resumed thread) pairs at preemptions",
        "real": ["geomc/shape", "geomc/linalg", "geomc/function", "geomc/random", "containers"],
        "stub": ["thread scheduler", "global operator new/delete (seam)"],
        "assumptions": ["getRandom() and objects that are being modified are not shared", "members that do not compile at the pinned commit are not called"],
    },
    "C10": {
        "parts": [{"scenario": "rng", "quick": 1500000, "thorough": 60000000}],
        "rule": "Seeded sequences of draws of every type and form on a scripted bit source (stuck, alternating, boundary, counting, one-hot, repeating, fair words), and acceptance counts of bounded draws over chosen source words.",
        "states": "distinct (operation, kind, active source fault) tuples",
        "real": ["geom::Random draw functions", "geom::Sampler", "geom::permute"],
        "stub": ["bit source (scripted subclass of geom::Random)"],
        "assumptions": ["a zero bound and equal bounds are excluded", "floating-point bounds have finite width"],
    },
    "C11": {
        "parts": [{"scenario": "rng", "quick": 500000, "thorough": 20000000}],
        "rule": "Seeded sequences of samples of every region kind, dimension 2-5, float and double, on a scripted bit source; fair-source coverage of each region.",
        "states": "distinct (operation, kind, active source fault) tuples",
        "real": ["geom::Random draw functions", "geom::Sampler", "geom::permute"],
        "stub": ["bit source (scripted subclass of geom::Random)"],
        "assumptions": ["radii, widths and directions within 2^-7..2^7 of unit size"],
    },
    "C12": {
        "parts": [{"scenario": "rng", "quick": 1000000, "thorough": 40000000}],
        "rule": "Seeded sequences of draws, samples and shuffles; the source misbehaves for seeded stretches and then delivers fair words; each pending draw may use at most 20000 fair words.",
        "states": "distinct (operation, kind, active source fault) tuples",
        "real": ["geom::Random draw functions", "geom::Sampler", "geom::permute"],
        "stub": ["bit source (scripted subclass of geom::Random)"],
        "assumptions": ["dimension at most 5 for rejection-sampled regions"],
    },
    "C14": {
        "parts": [{"scenario": "rng", "quick": 60000, "thorough": 5000000}],
        "rule": "Seeded shuffles of arrays of 0-64 elements on scripted bit sources, exhaustive enumeration of draw outcomes for 2-4 elements, and chi-square over fair shuffles of 2-5 elements.",
        "states": "distinct (operation, kind, active source fault) tuples",
        "real": ["geom::Random draw functions", "geom::Sampler", "geom::permute"],
        "stub": ["bit source (scripted subclass of geom::Random)"],
        "assumptions": ["enumeration applies while bounded draws reduce small words modulo the bound; otherwise the chi-square test decides"],
    },
    "C16": {
        "parts": [{"scenario": "matrix", "quick": 150000, "thorough": 8000000}],
        "rule": "Seeded histories over 2-10 matrices of 16 types (dense row- and column-major, dynamic, fixed and half-fixed; unique, shared and user-owned storage; diagonal; permutation) whose memory may overlap; element-wise comparison of every matrix and every vector with an independent dense model after every operation, under allocation failures and dimension mismatches.",
        "states": "distinct (operation, operand types, aliasing, outcome) tuples",
        "real": ["geomc/linalg matrix types", "Matrix.h operations", "LUDecomp.h", "Cholesky.h", "Storage.h", "MatrixIterator.h"],
        "stub": ["heap (failure injection)"],
        "assumptions": ["element type double holding small integers, so that sums and products are exact"],
    },
    "C17": {
        "parts": [{"scenario": "noise", "quick": 120000, "thorough": 6000000}],
        "rule": "Seeded histories over four noise functions (1-4 dimensions, float and double) built from two scripted bit sources, with allocations refused during construction; copies, moves, assignments, twins built from an equal source, sources used further and destroyed; values and gradients at lattice points, across cell boundaries and at small, negative and large positions, and every value recorded earlier evaluated again after every operation.",
        "states": "distinct (operation, types of all functions) tuples",
        "real": ["geom::PerlinNoise", "geom::Sampler::unit", "geom::permute", "geom::Random draws"],
        "stub": ["bit source (scripted subclass of geom::Random)", "global operator new/delete (seam)"],
        "assumptions": ["positions within 2^40 (double) and 2^19 (float) of the origin", "a function that was moved from is only destroyed"],
    },
    "C24": {
        "parts": [{"scenario": "raster", "quick": 200000, "thorough": 6000000}],
        "rule": "Seeded histories over four handles of rasters (1-3 dimensions, 1-4 components, float and double) that share their samples with copies: construction, copies, moves, assignments, writes inside and outside, with allocations refused; every stored sample is compared with a model after each operation, and single samples, regions and interpolated samples under every edge mode with what the model gives there.",
        "states": "distinct (operation, type, extents and sharing of all handles) tuples",
        "real": ["geom::Raster", "geom::GridIterator", "interp_linear, interp_cubic"],
        "stub": ["global operator new/delete (seam)"],
        "assumptions": ["sampling space is not degenerate (two samples or more along each axis)", "cubic interpolants are checked at sample positions and on constant data"],
    },
    "C30": {
        "parts": [{"scenario": "iterate", "quick": 2000000, "thorough": 40000000}],
        "rule": "Seeded histories of four iterators over one grid (1-4 dimensions, both orders, negative corners) or over all elements, a row or a column of a matrix (dense in both layouts, diagonal, permutation; static and run-time size): steps, jumps, differences, comparisons, copies, assignments, swaps, reads at an offset, writes through them and behind them; every place is compared with a model after each operation.",
        "states": "distinct (operation, kind of sequence, length, position and distance classes) tuples",
        "real": ["geom::GridIterator", "MatrixIterator.h", "MatrixLayout.h"],
        "stub": [],
        "assumptions": ["iterators stay between begin and end"],
    },
    "C22": {
        "parts": [{"scenario": "xform", "quick": 400000, "thorough": 12000000}],
        "rule": "Seeded histories over four transforms (2-4 dimensions, float and double) and four rotation quaternions: every construction, composition in place (also with itself), products, quotients, inverses, copies, casts and resizing; after every operation the matrix and the stored inverse of all transforms are compared with matrices kept in long double together with a bound of the rounding error so far, and points, directions, normals and rays are taken through them.",
        "states": "distinct (operation, type, aliasing, construction) tuples",
        "real": ["geom::AffineTransform and its constructions", "geom::Quat", "fixed-size SimpleMatrix products and inverse"],
        "stub": [],
        "assumptions": ["a transform whose numbers exceed 1e6 or whose error bound exceeds 1e-3 is replaced by a new one"],
    },
    "C25": {
        "parts": [{"scenario": "boxes", "quick": 600000, "thorough": 16000000}],
        "rule": "Seeded histories over four boxes (1-3 dimensions, four coordinate types): made from corners, centers, sizes and point sequences, grown by points (also their own corners) and boxes, cut, moved, scaled, dilated, summed, resized, fitted, sliced, multiplied and cast, in place and not, with operands that are the box itself; after every operation every box is compared with an exact interval set, and queries (containment, intersection, volume, center, support, nearest points, contact, rays) with that set.",
        "states": "distinct (operation, type, emptiness and degeneracy of each box, which boxes meet) tuples",
        "real": ["geom::Rect"],
        "stub": [],
        "assumptions": ["coordinates are multiples of 1/64 up to 4096, so exact", "empty boxes are not moved, dilated, summed or resized; a union with an empty box other than the canonical one need only contain the other"],
    },
    "C26": {
        "parts": [{"scenario": "harmonics", "quick": 300000, "thorough": 8000000}],
        "rule": "Seeded histories over three spherical and five zonal harmonic functions (band counts fixed or chosen at run time, float and double): samples projected in directions that include the poles and the coordinate planes, evaluations, inner products, convolutions, arithmetic, conversions either way and about a new axis, copies, moves and assignments of different band counts, with allocations refused; after every operation every coefficient is compared with one kept in long double together with a bound of the rounding error so far.",
        "states": "distinct (operation, type, band counts) tuples",
        "real": ["geom::SphericalHarmonics", "geom::ZonalHarmonics", "Basis.h", "UniqueStorage"],
        "stub": [],
        "assumptions": ["a function whose coefficients exceed 1e5 or whose error bound exceeds 1e-2 is cleared", "1 to 9 bands"],
    },
    "C27": {
        "parts": [{"scenario": "keys", "quick": 400000, "thorough": 8000000}],
        "rule": "Seeded histories over four keys of one of 22 library types and a hash table of them: keys written, copied, assigned, moved and varied in memory with different previous contents, zeros with either sign, entries inserted, looked up and erased, the table rehashed, allocations refused; the table is compared with a list searched by the numbers each key was made of.",
        "states": "distinct (operation, type, equalities between the keys, table fill) tuples",
        "real": ["Hash.h, SipHash.cpp, Digest and std::hash of every hashable type", "operator== of those types"],
        "stub": ["std::unordered_map is the host of the keys"],
        "assumptions": ["a number that never changes the hash in six tries takes no part in it", "no chance collision of six 64-bit hashes"],
    },
    "C20": {
        "parts": [{"scenario": "intersect", "quick": 120000, "thorough": 6000000}],
        "rule": "Seeded histories of overlap tests on three testers that are reused, copied, assigned and dropped, between four bodies of twelve kinds (2-5 dimensions, float and double) that are placed clearly apart, clearly overlapping, touching, coincident, or swept through each other, with support functions that throw or give wrong, infinite or undefined points for a while, and with lowered iteration limits; clear cases are decided by an independent description of the bodies.",
        "states": "distinct (operation, body kinds, iterations, final simplex, degeneracy) tuples",
        "real": ["geom::Intersector", "SimplexProject.h", "SeparatingAxis.h", "Orthogonal.h", "support functions and overlap tests of the shapes"],
        "stub": ["misbehaving support functions (wrapper)"],
        "assumptions": ["answers are judged only when bodies are clearly apart or clearly overlap"],
    },
    "C28": {
        "parts": [{"scenario": "lattice", "quick": 200000, "thorough": 6000000}],
        "rule": "Seeded histories over three lattice partitions (2-3 dimensions, float and double, five bin sizes, three element kinds): insertion, erasure, copies, assignments, queries around points and over rectangles whose borders lie on, next to and between those of bins, with allocations refused and element copies failing; contents are compared with a model after every operation and queries with a scan of all items.",
        "states": "distinct (operation, numbers of items, fault fired) tuples",
        "real": ["geom::BinLatticePartition", "std::hash of Vec"],
        "stub": ["element types (instrumented)", "global operator new/delete (seam)"],
        "assumptions": ["a query may also give items up to one bin outside of its region", "a partition whose assignment failed is only destroyed"],
    },
    "C18": {
        "parts": [{"scenario": "rng", "quick": 25000, "thorough": 600000}],
        "rule": "Seeded choice of region and parameters or of an interleaving of up to four draw kinds; 2000-24000 fair draws binned along independent uniform coordinates, pairs of coordinates and consecutive draws; chi-square score above 8 standard deviations is a violation.",
        "states": "distinct (operation, kind, active source fault) tuples",
        "real": ["geom::Random draw functions", "geom::Sampler", "geom::permute"],
        "stub": ["bit source (scripted subclass of geom::Random)"],
        "assumptions": ["the fair source is splitmix64", "deviations below about 4-13% of a bin are not resolved at quick volume"],
    },
}
