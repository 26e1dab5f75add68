import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier={"over":over,"text":qt},why_tests_cant=why,anchors=a))

p("C01","A double-ended queue always equals an ideal sequence, even after failures",
 "After any history of constructions, pushes and pops at either end, indexing (negative and wrapping), comparison, reserve, clear, copies, moves and assignments, a double-ended queue of any static capacity holds exactly the elements, in exactly the order, of an ideal sequence, and a moved-from queue is empty and reusable. When an operation is cut short because memory or an element copy was refused, a push, pop or reserve leaves the queue as it was, a failed copy leaves its source as it was, and every queue involved is still a well-formed sequence of values that were put into it. Arguments that refer to an element of the queue itself are legal.",
 ["histories","fault_sequences","inputs"],"All operation histories over several queues of several static capacities, element types that can refuse to be copied or moved, and all points at which an allocation or element operation can fail.",
 "The regression test (circular_buffer.cpp) runs a few fixed histories with ints and strings and never lets an allocation or a copy fail; ring-buffer errors need a particular head position, capacity and operation order.",
 ["geomc/Deque.h"],[("ring indexing head+size, growth to a new array","Deque::item / reserve"),("small-buffer versus heap ownership transfer","Deque move/copy constructors and assignments")],
 ["size(), operator[], front(), back(), operator==, values returned by pops"],[("head/size/capacity","which slots of the ring are live","geomc/Deque.h")])
p("C02","A double-ended queue never leaks, double-destroys or touches dead elements",
 "Whatever history of operations runs on double-ended queues, and wherever allocation failures or exceptions from element construction, copy, move or assignment strike, every element object is destroyed exactly once, no element is read, assigned or destroyed outside its lifetime, elements live in memory owned by the queue, and every block of memory is released exactly once. Exceptions raised by an element or by the allocator reach the caller.",
 ["histories","fault_sequences"],"All operation histories and all positions of allocation failures and element exceptions within them.",
 "No test counts constructions and destructions, and none injects a failure; ordinary element types hide a missed or doubled destructor.",
 ["geomc/Deque.h"],[("placement construction and explicit destruction of live slots only","Deque")],["element constructor/destructor/assignment calls, allocator calls"])
p("C03","A small-buffer array always equals an ideal sequence, even after failures",
 "After any history of constructions, push/emplace/pop, resize, reserve, clear, indexing, iteration, copies, moves and assignments, a small-size-optimised array of any static capacity holds exactly the elements, in order, of an ideal sequence, and a moved-from array is empty and reusable. When an operation is cut short because memory or an element copy was refused, appending and reserving leave the array as it was, a failed copy leaves its source as it was, and every array involved is still a well-formed sequence of values that were put into it. Arguments that refer to an element of the array itself are legal.",
 ["histories","fault_sequences","inputs"],"All operation histories over several arrays of several static capacities crossing the inline/heap boundary in both directions, and all points at which an allocation or element operation can fail.",
 "small_storage.cpp runs fixed histories of a few operations with no failing allocation or copy; its reserve test does not even pass at the pinned commit.",
 ["geomc/SmallStorage.h"],[("inline buffer versus heap array selection and growth","SmallStorage::_ensure_capacity, move/copy operations")],["size(), operator[], begin()/end(), operator==, values returned by pop_back()"])
p("C04","A small-buffer array never leaks, double-destroys or touches dead items",
 "Whatever history of operations runs on small-size-optimised arrays, and wherever allocation failures or exceptions from element construction, copy or move strike, every element object is destroyed exactly once, none is read, assigned or destroyed outside its lifetime, and every block of memory is released exactly once. Exceptions raised by an element or by the allocator reach the caller.",
 ["histories","fault_sequences"],"All operation histories and all positions of allocation failures and element exceptions within them.",
 "The tests use a counting shared pointer in a handful of histories and never inject a failure.",
 ["geomc/SmallStorage.h"],[("placement construction and explicit destruction of live items only","SmallStorage")],["element constructor/destructor calls, allocator calls"])
p("C05","Array storage honours its ownership policy through any history and failure",
 "Uniquely owned array storage duplicates its contents on copy and assignment so that later writes never show through, and hands its contents over on move; shared storage makes every copy see one array that lives as long as its last owner; wrapped storage refers to the caller's array and never frees it. Through any history of constructions, copies, moves, assignments and writes, and wherever an allocation or element operation fails, every element is destroyed once, every block freed once, the source of a failed copy is unchanged and every storage object remains safe to read, assign and destroy.",
 ["histories","fault_sequences"],"All histories over pools of static and dynamic unique, shared and wrapped storage objects, and all failure positions.",
 "Storage is exercised by the tests only indirectly, with doubles, without failures and without observing ownership.",
 ["geomc/Storage.h"],[("explicit new[]/delete[] pairing","UniqueStorage"),("boost::shared_array","Storage<T,0>")],["element contents through operator[]/get(), size(), destructor and allocator calls"])
p("C06","Arrays shared between threads live exactly until the last handle is gone",
 "When several threads copy, assign, move and drop their own handles to reference-counted data (shared array storage and the matrices built on it, noise functions, rasters), under every interleaving the data is never freed while any handle remains, is freed exactly once after the last one goes, every reader sees the contents that were published, and there is no data race.",
 ["schedules","histories"],"All interleavings of 2-4 threads each performing a history of copy/assign/move/drop/read on private handles to common data.",
 "All tests are single-threaded.",
 ["geomc/Storage.h","geomc/function/PerlinNoise.h","geomc/function/Raster.h","geomc/linalg/mtxtypes/SimpleMatrix.h"],[("atomic reference count of boost::shared_array","Storage<T,DYNAMIC_DIM>, PerlinNoise, Raster")],["allocator calls, reads through the handles"])
p("C07","A tree keeps its documented structure and order through any edit history",
 "After any history of node and item insertions, splits, subtree adoption, erasures, clearing, flattening, copying and moving, a tree has exactly the nodes, parent/child relations, sibling order, items, counts and item ranges that the documented operations prescribe: every item belongs to one leaf, items are contiguous in depth-first order, nodes are in sibling-contiguous order, and invalid requests change nothing. Searching for an item's parent and querying visit exactly the nodes an exhaustive search would. Copies are equal to and independent of their source, and a tree that is moved keeps its content.",
 ["histories","inputs"],"All edit histories over trees of any shape, including childless, item-less and single-node trees.",
 "The only tree test (tree.cpp) does not compile at the pinned commit and prints rather than checks; boundary bookkeeping errors need particular shapes such as empty siblings at the edge of several ancestors.",
 ["geomc/Tree.h"],[("first/last child and item references with counts, maintained along the ancestor chain","Tree::update_boundary_items, Subtree::insert_*/erase/split/flatten"),("rebuild after copying","Subtree::recalculate_references")],["root(), begin()/end(), items_begin()/items_end(), node_count(), item_count(), parent(), size(), find_parent(), query()"])
p("C08","A failed tree operation leaves a consistent tree and leaks nothing",
 "When an allocation, a node or item copy, a comparison during a split, or a query predicate fails partway through any tree operation, the exception reaches the caller, the tree still satisfies all its structural invariants, an insertion that failed has changed nothing, no item is lost or duplicated, and all memory and elements are released exactly once when the trees are destroyed.",
 ["histories","fault_sequences"],"All edit histories with failures at every allocation, element copy and callback.",
 "No test injects a failure into a tree operation.",
 ["geomc/Tree.h"],[("insertion into the node/item lists before bookkeeping","Subtree::insert_child_node(s), insert_item(s), adopt, split")],["exceptions, structure through the public iterators, element and allocator calls"])
p("C09","A seeded generator's output depends only on its seed and draws since seeding",
 "For every generator provided, two generators given the same seed, or one reseeded at any point of its history, produce identical results for identical sequences of draws of every type, a copy continues exactly as its original would, and no generator's output is affected by the construction, seeding or use of other generators, whether interleaved in one thread or across threads, nor by the clock.",
 ["histories","schedules"],"All histories of draws of mixed types, reseeds, copies and assignments over several generators, and all interleavings of threads each using its own generator.",
 "No test compares a reseeded generator with a fresh one after draws of mixed types, copies one, or runs two interleaved.",
 ["geomc/random/Random.h","geomc/random/Random.cpp","geomc/random/LCRand.cpp","geomc/random/MTRand.cpp","geomc/random/Xorshiro.h"],[("all generator state is per object and reset by rseed","LCRand, MTRand, XoshiroRand, Random::_bitpool")],["rand32(), rand64(), rand<T>()"])
p("C10","Random values stay inside their documented range for any stream of bits",
 "Whatever bits the underlying source produces, a draw on the unit interval is in [0,1], an integer draw with a non-zero bound lies between zero and the bound (bound excluded), an integer draw between two distinct bounds of any width lies between them (upper bound excluded), and a floating-point draw between finite bounds of finite width lies between them to within rounding, with bounds given in either order. Bounded integer draws are unbiased: over all source words, every admissible value is accepted equally often.",
 ["inputs","fault_sequences"],"All bit streams (fair, stuck, alternating, adversarial at the boundary words) and all bounds, including negative, reversed and full-width ranges.",
 "Tests draw from one seeded Mersenne Twister with modest bounds; the boundary words appear with probability 2^-32.",
 ["geomc/random/Random.cpp"],[("rejection of the incomplete last chunk","Random::rand<unsigned T>(hi)"),("direct assembly of exponent and mantissa","Random::rand<float>, rand<double>")],["rand<T>(), rand<T>(hi), rand<T>(lo,hi)"])
p("C11","Random geometric samples lie in the requested region for any source of bits",
 "Whatever bits the source produces, every sample of a unit vector, ball, shell, box, spherical cap, solid cap, oriented disk, disk, arc or solid arc is finite and lies in the region the caller asked for, to within rounding, for every valid region parameter and axis direction; and with a fair source the samples reach all of that region.",
 ["inputs","fault_sequences"],"All bit streams, all valid region parameters and directions (including axes parallel and antiparallel to z), all dimensions 2-4 and both precisions.",
 "No test covers the samplers; degenerate streams (a zero vector before normalisation) and antiparallel axes never occur by chance.",
 ["geomc/random/RandomTools.h"],[("rejection to the unit ball then normalisation; rotation from the z axis","Sampler")],["Sampler member functions"])
p("C12","Every random draw finishes promptly once the bit source behaves",
 "No matter what a faulty or adversarial bit source delivered before, once it starts delivering fair bits every pending draw, sample or shuffle completes within a bounded number of further source words, and a draw never consumes source words without bound from a source that is fair throughout.",
 ["fault_sequences","schedules"],"All finite bad prefixes followed by fair bits, for every kind of draw, sampler and shuffle and all their parameters.",
 "A test can only observe that particular draws terminated with one good generator.",
 ["geomc/random/Random.cpp","geomc/random/RandomTools.h"],[("rejection loops","Random::rand<T>(hi), Sampler::unit/solidball")],["number of rand32() calls made by one draw"])
p("C13","Default-seeded generators never start in the same state",
 "Any two generators of the same kind constructed without a seed in one process produce different streams, whatever the clocks do - frozen, coarse, ticking between the two constructions, or stepping backwards - and however constructions on different threads interleave; constructing generators on different threads is free of data races.",
 ["schedules","fault_sequences","histories"],"All clock behaviours (frozen, coarse, ticking, jumping in either direction) and all interleavings of constructions on several threads.",
 "Tests always pass explicit seeds, and a real clock almost never produces the colliding pattern on demand.",
 ["geomc/random/LCRand.cpp","geomc/random/MTRand.cpp","geomc/random/Xorshiro.h"],[("clock reading combined with a per-class construction counter","LCRand::uniq, MTRand::uniq, XoshiroRand()")],["first words of each generator's stream"])
p("C14","Shuffling always yields a permutation and reaches every one of them",
 "For any source of bits and any array or vector, a shuffle leaves a rearrangement of exactly the original elements and touches nothing outside them; over all outcomes of its random draws each rearrangement is reached, and reached equally often.",
 ["inputs","fault_sequences"],"All lengths from zero up, all bit streams including stuck and biased ones, and all sequences of draw outcomes for short arrays.",
 "No test covers shuffling; reaching every permutation is a statement about all draw sequences.",
 ["geomc/random/RandomTools.h"],[("Fisher-Yates swaps","permute")],["array contents after permute()"])
p("C15","Concurrent use of shared constant objects is race-free and equals serial use",
 "When several threads evaluate const operations on the same objects - vectors, matrices, decompositions, transforms, rotations, rays, shapes, intersection tests, noise, rasters, spherical harmonics, curves, containers, trees - every result is bit-identical to the one obtained serially and no two threads make conflicting unsynchronised accesses, under every interleaving.",
 ["schedules"],"All interleavings of 2-4 threads performing const operations on shared objects and non-const operations on private ones.",
 "All tests are single-threaded; a hidden cache or static scratch buffer would pass them.",
 ["geomc/linalg","geomc/shape","geomc/function","geomc/Deque.h","geomc/SmallStorage.h","geomc/Storage.h","geomc/Tree.h"],[("absence of hidden mutable state behind const operations","whole library")],["memory accesses and results of const member and free functions"])
p("C16","Matrix operations survive allocation failure and operand aliasing",
 "For matrices of static or run-time size and any ownership policy and layout, products, sums, differences, scalings, transposes, inverses, permutations, copies and assignments give the mathematically exact result on small-integer matrices even when the destination shares storage with an operand. If an allocation fails or dimensions disagree, the error reaches the caller, no operand other than the destination changes, nothing leaks or is freed twice, every matrix stays usable, and repeating the operation without the failure gives the correct result.",
 ["histories","fault_sequences"],"All histories over a pool of matrices that may share storage, and all allocation-failure positions and dimension mismatches.",
 "matrix_tests.cpp checks fixed operations with ample memory; it never lets an allocation fail midway and covers few aliasing patterns.",
 ["geomc/linalg/Matrix.h","geomc/linalg/mtxtypes","geomc/linalg/mtxdetail","geomc/Storage.h"],[("aliasing check and temporary buffer","mtx_aliases_storage, mul/transpose/inv"),("dimension checks","GEOMC_MTX_CHECK_DIMS")],["matrix elements, exceptions, allocator calls"])
p("C17","A noise function is fixed by its random source, finite, continuous and shareable",
 "A gradient-noise function built from any source of bits, even a stuck one, is finite everywhere, zero at lattice points, continuous across cell boundaries, and its reported gradient agrees with its values; equal sources give equal functions, copies are equal, and nothing done later to the source or to other noise functions changes it. If memory runs out while one is built, nothing leaks and a retry with an equally positioned source gives the same function as if nothing had failed.",
 ["fault_sequences","inputs","histories"],"All bit streams, positions (negative, large, on and next to lattice boundaries), dimensions 1-4, and all allocation-failure positions during construction.",
 "perlin.cpp checks gradients at random points for one good generator and never builds from a degenerate source or with failing memory.",
 ["geomc/function/PerlinNoise.h","geomc/function/functiondetail/PerlinDetail.h","geomc/random/RandomTools.h"],[("table of random unit gradients, hashed lattice lookup, quintic fade","PerlinNoise")],["eval(), gradient()"])
p("C18","Random values and samples are uniformly distributed over their region",
 "With a fair source of bits, unit-interval draws, bounded draws and samples of unit vectors, balls, shells, boxes, caps, solid caps, disks, arcs and solid arcs are distributed uniformly over the region documented for them, whatever the region's parameters and whatever order draws of different kinds are interleaved in.",
 ["inputs","histories"],"All fair bit streams, region parameters, dimensions and interleavings of draw kinds.",
 "No test measures a distribution.",
 ["geomc/random/Random.cpp","geomc/random/RandomTools.h"],[("inverse-CDF radii, uniform heights, rejection from the cube","Sampler"),("exponent/mantissa construction","Random::rand<float/double>")],["Sampler member functions, rand<T>()"])
# ---- pure properties
NT="Only fixed or a few hundred random inputs are tried; the statement is over all inputs."
p("C19","Inverse, determinant and linear solve agree with matrix multiplication",
 "For every non-singular square matrix of any size, layout and element type, the inverse multiplied by the matrix is the identity, the determinant is multiplicative and zero exactly for singular matrices, a linear solve reproduces its right-hand side, and LU, Cholesky and orthogonalisation factors recombine to their input, to within conditioning.",
 ["inputs"],"All matrices.",NT,["geomc/linalg/Matrix.h","geomc/linalg/LUDecomp.h","geomc/linalg/Cholesky.h","geomc/linalg/Orthogonal.h","geomc/linalg/mtxdetail/MatrixInv.h","geomc/linalg/mtxdetail/MatrixDet.h"],[("elimination with pivoting","LUDecomp.h"),("closed forms for 2x2-4x4","MatrixInv.h, MatrixDet.h")])
p("C20","Convex intersection tests agree with each other and with support functions",
 "For any two convex shapes the overlap test is symmetric, agrees with the separating-axis test where both apply, is invariant under applying a common transform, and never reports disjoint for shapes that share an interior point.",
 ["inputs"],"All pairs of convex shapes.",NT,["geomc/shape/Intersect.h","geomc/shape/shapedetail/SeparatingAxis.h","geomc/shape/shapedetail/SimplexProject.h"],[("GJK iteration with simplex projection","Intersect.h")])
p("C21","Shape queries agree: containment, bounds, support, projection, ray trace",
 "For every shape, bounds contain every contained point, the support point maximises the dot product over the shape, projection returns the nearest surface point, signed distance has the sign of containment, and a ray hit lies on the surface with nothing of the shape before it.",
 ["inputs"],"All shapes, points, directions and rays.",NT,["geomc/shape"],[("closed forms per shape","geomc/shape/*.h")])
p("C22","Transforms and rotations compose, invert and preserve geometry",
 "Applying a transform and then its inverse is the identity, composition applies in the documented order, normals and directions transform consistently, and quaternion products, exponentials and interpolations agree with the rotations they denote.",
 ["inputs"],"All transforms, rotations and points.",NT,["geomc/linalg/AffineTransform.h","geomc/linalg/Quaternion.h"],[("matrix and inverse kept together","AffineTransform.h")])
p("C23","Dual-number evaluation yields exact derivatives",
 "Evaluating any expression of the supported functions over dual numbers yields the function's value and its derivative, and branches such as min, max, abs and comparisons follow the value part.",
 ["inputs","programs"],"All expressions and inputs.",NT,["geomc/function/functiondetail/DualImpl.h","geomc/function/functiondetail/DualFunctions.h"],[("product and chain rules","DualFunctions.h")])
p("C24","Raster sampling reproduces its samples and honours edge and interpolation modes",
 "Sampling at a grid point returns the stored sample, interpolants reproduce constant data exactly, and clamp, periodic, mirror and constant edges return what those names mean for every coordinate.",
 ["inputs"],"All rasters, coordinates and modes.",NT,["geomc/function/Raster.h","geomc/function/functiondetail/RasterDetail.h"],[("edge policies and kernels","RasterDetail.h")])
p("C25","Rectangle and interval algebra is exact set algebra",
 "Union, intersection, containment, volume, dilation and lattice conversion of axis-aligned boxes agree with set semantics, including for empty boxes.",
 ["inputs"],"All boxes.",NT,["geomc/shape/Rect.h"],[("per-axis min/max","Rect.h")])
p("C26","Spherical-harmonic projection, evaluation and convolution agree",
 "Evaluating a projected band-limited function reproduces it, the basis is orthonormal, and rotation-invariant operations commute with evaluation.",
 ["inputs"],"All functions and directions.",NT,["geomc/function/SphericalHarmonics.h"],[("Legendre recurrences","SphericalHarmonics.h")])
p("C27","Equal values hash equally and iterators enumerate each element once",
 "Objects that compare equal hash equally, and row, column, region and subset iterators visit each addressed element exactly once in the documented order in both directions.",
 ["inputs"],"All values and regions.",NT,["geomc/Hash.h","geomc/linalg/mtxdetail/MatrixIterator.h","geomc/shape/GridIterator.h"],[("index arithmetic","MatrixIterator.h, GridIterator.h")])
p("C28","Spatial indexes return exactly the stored objects a full scan would",
 "Nearest-neighbour, range and bin queries over a KD-tree or lattice partition return exactly what a scan of all stored objects returns.",
 ["inputs","histories"],"All point sets and queries.",NT,["geomc/shape/KDTree.h","geomc/shape/BinLatticePartition.h"],[("bounding-box pruning","KDTree.h"),("hash of lattice cell","BinLatticePartition.h")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
