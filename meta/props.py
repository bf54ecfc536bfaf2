# table of properties: (id, title, statement, over, quantifier text, why tests can't, files, mechanism)
P = []
def prop(id, title, statement, over, qtext, why, files, mech, level_note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=level_note, na=na))

prop('P01', 'Double-ended queue behaves as a sequence',
 'A double-ended queue with small inline storage always holds exactly the sequence that its history of pushes, pops, clears, copies, moves, assignments and element writes implies, for any inline capacity and whether the elements live inline or on the heap. Indices wrap and negative indices count from the end, pops on an empty queue yield nothing, equality compares sequences, and copies are independent. Every element is constructed and destroyed exactly once and nothing is leaked or touched outside its storage.',
 ['histories', 'inputs'], 'all operation sequences and element values, over every combination of inline/heap storage and head offset',
 'The tests run one fixed random history with one element type; ownership errors and rarely reached states (wrapped head on the heap, shrunk below the inline size) are not sampled.',
 ['geomc/Deque.h'], [('ring buffer with inline storage', 'geomc/Deque.h'), ('storage takeover on move', 'geomc/Deque.h')])
prop('P02', 'Small-storage array behaves as a sequence with stable ownership',
 'A growable array with small inline storage always holds exactly the sequence that its history of appends, pops, resizes, reserves, clears, element writes, copies, moves and assignments implies, whichever of the inline or heap storage is in use. Every element is constructed and destroyed exactly once, copies are independent, a moved-from array is empty and reusable, and no memory is leaked or accessed outside its storage.',
 ['histories', 'inputs'], 'all operation sequences and element values, over inline and heap storage of both operands',
 'Tests cover a handful of appends and copies of plain integers; ownership of elements across reallocation and storage switches is unobserved.',
 ['geomc/SmallStorage.h'], [('inline/heap storage switch', 'geomc/SmallStorage.h'), ('element relocation on growth and erase', 'geomc/SmallStorage.h')])
prop('P03', 'Storage policies: unique copies, shared aliases, wrapped references',
 'Fixed- and runtime-sized element storage keeps the values it was built from. Under the unique policy copies and assignments are deep and independent and moves transfer the elements; under the shared policy copies alias the same elements, which live as long as any holder; under the wrapped policy the storage only refers to the caller\'s array. Reported sizes always match, and nothing is leaked or freed twice.',
 ['histories', 'inputs'], 'all sequences of copies, moves, assignments and writes, all element values and runtime sizes (including empty)',
 'No test exercises the storage classes directly; matrices sample only a few sizes.',
 ['geomc/Storage.h'], [('policy-selected storage classes', 'geomc/Storage.h')])
prop('P04', 'Scalar utility functions meet their arithmetic definitions',
 'Positive modulus lies between zero and the modulus and is congruent to its argument; floor and ceiling division, and snapping to a multiple, round towards the stated direction for operands of either sign; clamping, mixing, multilinear and cubic (Catmull-Rom) interpolation equal their defining polynomials; sums and differences of products equal the exact expression for real, complex and integer types. The quadratic solver reports roots exactly when real roots exist and every reported value is a root, with both roots reported. The signed angle between two angles is at most half a turn and reaches the target modulo a full turn.',
 ['inputs'], 'all integer operands (signed and unsigned) and all real inputs',
 'These functions have no dedicated tests; negative operands, degenerate coefficients and boundary values are not sampled.',
 ['geomc/function/Utils.h', 'geomc/function/functiondetail/UtilDetail.h'], [('arithmetic helpers', 'geomc/function/Utils.h'), ('fused product helpers', 'geomc/function/functiondetail/UtilDetail.h')])
prop('P05', 'Hashes: equal objects hash equal; the byte hash is SipHash-2-4',
 'Objects that compare equal (including zeros of opposite sign) have equal hashes, for vectors, quaternions, matrices, transforms, rays, rectangles, spheres and dual numbers. Combining hashes keeps distinct final contributions distinct and depends on every operand in order. The wide byte hash equals keyed SipHash-2-4 of exactly the given bytes for every key, content and length, in both digest widths, writing no byte beyond the digest.',
 ['inputs'], 'all keys, message contents and lengths up to the bound; all member values',
 'No test touches hashing; a wrong rotation, tail byte or length case only shows on particular messages.',
 ['geomc/Hash.h', 'geomc/function/functiondetail/SipHash.cpp', 'geomc/linalg/Vec.h', 'geomc/shape/Rect.h', 'geomc/linalg/mtxtypes/SimpleMatrix.h'],
 [('hash combining', 'geomc/Hash.h'), ('keyed byte hash', 'geomc/function/functiondetail/SipHash.cpp')])
prop('P06', 'Dual-number arithmetic is exact forward differentiation',
 'Every operation and function on dual numbers returns the ordinary value of the operation together with the exact derivative: sums, differences, products, quotients (including in place and with plain numbers on either side), fused product sums, powers, exponentials, logarithms, roots, and trigonometric, inverse trigonometric and hyperbolic functions. At points where a function has two one-sided derivatives, the selected policy decides which is returned. Comparisons and conversions act on the value as documented.',
 ['inputs'], 'all real values and derivatives in each function\'s domain, all policies, including an operand aliased with the result',
 'Tests compare a few sampled points with finite differences and cannot distinguish near-equal derivatives or rarely used operators.',
 ['geomc/function/Dual.h', 'geomc/function/functiondetail/DualFunctions.h', 'geomc/function/functiondetail/DualImpl.h'],
 [('dual operators', 'geomc/function/functiondetail/DualImpl.h'), ('chain rules', 'geomc/function/functiondetail/DualFunctions.h')])
prop('P07', 'Vector algebra and geometry meet their definitions',
 'Vectors of every dimension obey componentwise arithmetic, comparison, clamping, rounding and conversion; dot and cross products, lengths, distances, normalisation, mixing, projection, reflection and bouncing equal their geometric definitions, with degenerate inputs handled as documented. Rotations in two and three dimensions, about an axis and/or a centre, are the right-handed rotation by the given angle, direction alignment maps one direction onto the other, and polar and spherical coordinates round-trip.',
 ['inputs'], 'all component values in dimensions two to five, all angles, axes and centres',
 'Tests check a few identities on random vectors; sign, order and degenerate-input errors survive them.',
 ['geomc/linalg/Vec.h', 'geomc/linalg/vecdetail/VecBase.h', 'geomc/linalg/vecdetail/Vec2.h', 'geomc/linalg/vecdetail/Vec3.h', 'geomc/linalg/vecdetail/Vec4.h'],
 [('generic vector operations', 'geomc/linalg/vecdetail/VecBase.h'), ('2d and 3d specialisations', 'geomc/linalg/vecdetail/Vec3.h')])
prop('P08', 'Quaternion algebra and rotations; point-to-ray distances',
 'Quaternion product, conjugate, inverse, norm and conversion follow the Hamilton algebra; rotating by a unit quaternion equals conjugation and the right-handed rotation by its axis and angle, composition of rotations is the product, and direction alignment maps one direction onto the other, including antiparallel ones. Exponential, logarithm, powers and spherical interpolation agree with their definitions, including real quaternions and interpolation endpoints. Points along a ray, the closest point on it and the distance to it are the geometric ones.',
 ['inputs'], 'all quaternions, unit directions, angles, exponents and rays',
 'Tests have a few checks on random quaternions; conventions, degenerate (real or antiparallel) inputs and several entry points are never run.',
 ['geomc/linalg/Quaternion.h', 'geomc/linalg/Ray.h'],
 [('quaternion operations', 'geomc/linalg/Quaternion.h'), ('ray operations', 'geomc/linalg/Ray.h')])
prop('P09', 'Matrix products, sums, scaling and transposes equal their definitions',
 'The product of any two matrices, or of a matrix and a vector, has the element-by-element value of linear algebra, for every combination of dense, diagonal and permutation matrices, storage order, static or runtime size, and storage policy; the same holds for sums, differences, scaling and transposes. Writing a product or transpose into a destination gives the same value even when the destination is, or overlaps, an operand. Operands of incompatible runtime size are rejected with an exception instead of being read or written out of range.',
 ['inputs', 'configurations'], 'all element values and permutations; all type, layout and size combinations up to the bound; all overlaps of operand and destination storage',
 'Tests multiply a few random matrices of matching simple type; the specialised kernels, aliased destinations and mixed sizes are not sampled.',
 ['geomc/linalg/mtxdetail/MatrixMult.h', 'geomc/linalg/mtxdetail/MatrixArithmetic.h', 'geomc/linalg/mtxdetail/MatrixFunctionImpl.h', 'geomc/linalg/mtxtypes/SimpleMatrix.h', 'geomc/linalg/mtxtypes/DiagMatrix.h', 'geomc/linalg/mtxtypes/PermutationMatrix.h'],
 [('product kernels per type pair', 'geomc/linalg/mtxdetail/MatrixMult.h'), ('aliasing check and temporary destination', 'geomc/linalg/mtxdetail/MatrixFunctionImpl.h')])

prop('P10', 'Matrix access, iteration, copying and comparison agree element by element',
 'Element access, row access, row, column and region iteration, and copies of whole matrices or regions all see the same elements in the same order, whatever the storage order, size kind or matrix type. Construction and conversion between types and sizes give the overlapping elements and the identity elsewhere as documented, without touching anything out of range. Two matrices compare equal exactly when they have the same size and elements.',
 ['inputs', 'configurations'], 'all element values and regions within the size bound; dense row-major and column-major, diagonal and permutation matrices, static and runtime sizes',
 'Tests do not compile or run most accessor and iterator instantiations.',
 ['geomc/linalg/Matrix.h', 'geomc/linalg/mtxtypes/SimpleMatrix.h', 'geomc/linalg/mtxtypes/DiagMatrix.h', 'geomc/linalg/mtxdetail/MatrixIterator.h', 'geomc/linalg/mtxdetail/MatrixCopy.h'],
 [('dense matrix', 'geomc/linalg/mtxtypes/SimpleMatrix.h'), ('generic iteration', 'geomc/linalg/mtxdetail/MatrixIterator.h')])
prop('P11', 'Determinants and inverses equal their definitions',
 'The determinant of a square matrix of any size and type equals its signed sum over permutations. Inversion succeeds exactly when the determinant is not zero, and then the result times the original is the identity on both sides, also when the destination is the source.',
 ['inputs', 'configurations'], 'all element values; sizes up to the bound; dense, diagonal and permutation matrices of static and runtime size, either storage order',
 'Tests invert a few random well-conditioned matrices; singular matrices, zero pivots, other sizes and types and the determinant itself are not exercised.',
 ['geomc/linalg/mtxdetail/MatrixDet.h', 'geomc/linalg/mtxdetail/MatrixInv.h', 'geomc/linalg/Matrix.h'],
 [('determinants', 'geomc/linalg/mtxdetail/MatrixDet.h'), ('inverses', 'geomc/linalg/mtxdetail/MatrixInv.h')])
prop('P12', 'LU factorisation and linear solving are exact',
 'For every matrix the factorisation gives a permutation, a unit lower and an upper triangular (or trapezoidal) matrix whose product is the row-permuted input, and reports singularity exactly when a square input is singular. Solving a linear system, with one or several right-hand sides, yields a vector that satisfies it whenever the system is regular, and reports failure otherwise.',
 ['inputs', 'configurations'], 'all element values, including those that force pivoting; square, wide and tall shapes and both storage orders up to the bound',
 'Tests factor random matrices; zero pivots, singular and rectangular matrices are not sampled.',
 ['geomc/linalg/LUDecomp.h'],
 [('factorisation', 'geomc/linalg/LUDecomp.h'), ('linear solve', 'geomc/linalg/LUDecomp.h')])
prop('P13', 'Orthogonal complements, null spaces, projections and Cholesky are exact',
 'The orthogonal complement of independent vectors is a nonzero vector perpendicular to all of them; a null space basis is independent and annihilated by the given vectors, for any placement of dependent coordinates. Orthogonalisation keeps the span and makes the basis mutually perpendicular, projections onto a basis leave a perpendicular remainder, and the triangular factor of a positive definite matrix reproduces it while others are rejected.',
 ['inputs', 'configurations'], 'all vector components, including zeros and dependent coordinates, in dimensions two to four (five where stated)',
 'Tests use random, generically placed vectors; zero components and dependent leading coordinates never occur.',
 ['geomc/linalg/Orthogonal.h', 'geomc/linalg/Cholesky.h'],
 [('orthogonal complement and null space', 'geomc/linalg/Orthogonal.h'), ('Cholesky', 'geomc/linalg/Cholesky.h')])
prop('P14', 'Permutation matrices stay consistent through any history',
 'A permutation matrix always represents exactly the permutation its history of settings, row and column swaps, transpositions, products and assignments implies, in both the row and the column maps and in its elements. Its sign and determinant always equal the parity of that permutation, and multiplying by it moves rows to and from exactly their mapped places.',
 ['inputs', 'histories'], 'all permutations up to the size bound and all short histories of operations, static and runtime sizes',
 'Tests apply permutations to a few random matrices; the sign, the second map and sequences of operations are not observed.',
 ['geomc/linalg/mtxtypes/PermutationMatrix.h', 'geomc/linalg/mtxdetail/MatrixMult.h'],
 [('permutation matrix', 'geomc/linalg/mtxtypes/PermutationMatrix.h')])
prop('P15', 'Grid iteration visits every cell once, in order, with random access',
 'Iterating over an integer region visits each of its cells exactly once in the chosen axis order and ends after the last one, and an empty region has no cells. Stepping backwards undoes stepping forwards, and jumping by any offset, differences and comparisons between iterators agree with the number of steps, wherever the region lies.',
 ['inputs', 'histories'], 'all regions, positions and offsets within the bound, both axis orders, one to three dimensions',
 'No test runs the grid iterator.',
 ['geomc/shape/GridIterator.h'],
 [('grid iterator', 'geomc/shape/GridIterator.h')])
prop('P16', 'Affine transforms compose, invert and rotate as documented',
 'A transform applied to points, directions, normals and rays, and the same operations through its inverse, are the affine maps its construction describes; a constructed transform and its inverse always cancel. Products, quotients and their in-place forms compose in the documented order in any sequence, and resizing keeps both directions consistent. Rotations by angle, axis, centre, quaternion or direction alignment (including opposite directions) are proper rotations by that amount.',
 ['inputs', 'histories'], 'all points, angles, axes, centres, scales and matrices in two to four dimensions, all short histories of compositions',
 'No test runs transforms except through sampled shapes.',
 ['geomc/linalg/AffineTransform.h'],
 [('transform operations and constructors', 'geomc/linalg/AffineTransform.h')])
prop('P17', 'Boxes behave as closed sets of points',
 'An axis-aligned box contains exactly the points between its inclusive bounds, and containment, overlap, union, intersection, exclusion, translation, scaling and dilation of boxes (including empty ones) agree with the same operations on sets of points. Boxes built or resized from centres, corners and sizes have exactly that centre and size, for real and integer coordinates. Clipping, projection, signed distance, support points, ray intervals, contact and fitting give the nearest, furthest or minimal result among all candidates.',
 ['inputs'], 'all real or integer bounds, points, directions and rays in one to three dimensions, including empty and degenerate boxes',
 'Tests run a few box operations on random, overlapping boxes; boundary contact, empty ranges, integer rounding and most operations are not exercised.',
 ['geomc/shape/Rect.h'],
 [('box operations', 'geomc/shape/Rect.h')])

prop('P18', 'Spheres, capsules and planes agree with their distance functions',
 'A sphere or capsule contains exactly the points within its radius of its centre or axis segment, and a half-space exactly the points on or behind its plane. Signed distance, projection, normals, support points, bounds and ray intervals are the exact geometric ones, and transformed planes hold exactly the transformed points. Intersection between spheres, boxes, capsules, planes and hulls is reported exactly when the point sets overlap.',
 ['inputs'], 'all centres, radii, end points, directions, rays, boxes and hulls in two and three dimensions (spheres also in one)',
 'Tests run sphere and plane operations on few random inputs; relative placement of two shapes, scaled normals and most member functions are never run.',
 ['geomc/shape/Sphere.h', 'geomc/shape/Capsule.h', 'geomc/shape/Plane.h', 'geomc/shape/Oriented.h'],
 [('sphere', 'geomc/shape/Sphere.h'), ('capsule', 'geomc/shape/Capsule.h'), ('plane', 'geomc/shape/Plane.h')])

prop('P19', 'Cylinders and extruded shapes agree with their closed forms',
 'A cylinder contains exactly the points between its end planes and within its radius, and an extruded shape the points above its base between its heights, boundaries included. Signed distance (negative inside), nearest surface point, outward normal, furthest point in a direction, bounds and ray interval are the exact geometric ones. This includes points on the axis, rays parallel to the axis or the wall, and directions along the axis.',
 ['inputs'], 'all end points, radii, heights, points, directions and rays',
 'Tests compare a few member functions at random points; the axis, the boundary, parallel rays and the inside distance are not sampled.',
 ['geomc/shape/Cylinder.h', 'geomc/shape/Extruded.h'],
 [('cylinder', 'geomc/shape/Cylinder.h'), ('extrusion', 'geomc/shape/Extruded.h')])

prop('P20', 'Dilated, oriented and frustum shapes hold exactly the points they should',
 'A dilated shape holds exactly the points within the dilation distance of the original, an oriented shape exactly the transformed points of the original, and a frustum at each height exactly the scaled cross section, restricted to one side of its tip. Signed distance, projection, furthest points, bounds, volume and ray intervals of the wrapped shapes agree with that set, including rays through the tip, along the axis, level, or parallel to a side. Dilating and transforming already wrapped shapes composes the dilations and transforms.',
 ['inputs'], 'all boxes, discs, height ranges, dilations, transforms, points and directions; all rays of the listed families',
 'Tests run wrapped shapes through a few random samples, and dilation not at all; degenerate rays, reflections, boundaries and construction are not sampled.',
 ['geomc/shape/Dilated.h', 'geomc/shape/Oriented.h', 'geomc/shape/Frustum.h', 'geomc/shape/Shape.h'],
 [('dilation', 'geomc/shape/Dilated.h'), ('orientation', 'geomc/shape/Oriented.h'), ('frustum', 'geomc/shape/Frustum.h')])

prop('P21', 'Simplexes answer point, ray and distance queries exactly',
 'A simplex that spans its space contains exactly the weighted means of its vertices, and a ray meets a simplex on exactly the parameters whose points lie in it. Its signed volume and unsigned measure are those of the determinant and Gram determinant; a point faces it exactly when its orthogonal shadow falls inside, with the surface parameters reported. Clipping gives the nearest point of the hull (on the reported face), projection the nearest boundary point, and the signed distance is negative inside.',
 ['inputs'], 'all points and rays; all vertices in the plane for rays and measures, chosen tetrahedra in space',
 'Tests sample random simplexes against a slower reference; flat simplexes, single-point hits, signs of volumes and lower-dimensional faces are not sampled.',
 ['geomc/shape/Simplex.h', 'geomc/shape/shapedetail/SimplexProject.h', 'geomc/linalg/Orthogonal.h'],
 [('simplex', 'geomc/shape/Simplex.h')])

prop('P22', 'Overlap tests between convex shapes report overlap exactly',
 'Two convex shapes are reported as overlapping exactly when they share a point, touching included, whichever of the general test, the member test or the oriented-box test is asked and in whichever order. When shapes are reported apart, the reported separating direction really separates them, for any shape that answers support queries. A tester that is reused or copied after earlier tests gives the same answers as a new one.',
 ['inputs', 'histories'], 'all relative offsets of chosen points, segments, polygons, polyhedra and boxes under chosen affine maps; balls of any size on a line; two consecutive tests',
 'Tests compare two of the overlap tests on random boxes; touching contact, flat shapes, reuse after an overlap and the reported axis are not sampled.',
 ['geomc/shape/Intersect.h', 'geomc/shape/shapedetail/SeparatingAxis.h', 'geomc/shape/Shape.h'],
 [('intersect', 'geomc/shape/Intersect.h')])

prop('P23', 'Rasters reproduce their samples and interpolate between them',
 'Reading a raster at a grid point gives the stored sample, and at any other integer coordinate the clamped, wrapped, mirrored or constant value its edge mode promises, for every integer. Continuous sampling gives the nearest sample, the multilinear blend or the central-difference cubic of the neighbouring samples, over any domain rectangle whose corners are the extreme samples, including negative and out-of-range coordinates. Static and run-time choice of mode agree, writes change only the named sample, and copied regions hold the discrete samples in order.',
 ['inputs', 'configurations'], 'all sample values and positions on grids of 1 to 7 samples in one, two and three dimensions, for every edge and interpolation mode',
 'There are no raster tests; wrapping of negative coordinates, off-grid extrapolation and one-dimensional grids are never run.',
 ['geomc/function/Raster.h', 'geomc/function/functiondetail/RasterDetail.h', 'geomc/function/Utils.h'],
 [('raster', 'geomc/function/Raster.h')])

prop('P24', 'Random numbers stay in range, use their bits evenly and replay by seed',
 'For every pattern of raw random bits, a bounded draw lies in its range (including negative, empty, reversed and full-width ranges), and each accepted block of raw values gives every result exactly once; draws without a bound and coin tosses lose no raw bits. Floating point draws stay between their bounds whatever is drawn, with the coin tosses fixing the binade. The same seed always gives the same sequence, whatever the generator did before being reseeded, and the generators follow their published recurrences.',
 ['inputs', 'histories'], 'all raw bits and seeds; bounds and ranges from chosen values including the extremes of every type; floats with up to five leading zero exponent bits; sequences of a few draws, 1300 for the Mersenne generator',
 'Tests only consume random numbers; out-of-range or uneven results need particular raw bits or wide bounds, and reseeding is never exercised.',
 ['geomc/random/Random.h', 'geomc/random/Random.cpp', 'geomc/random/LCRand.h', 'geomc/random/MTRand.cpp', 'geomc/random/Xorshiro.h'],
 [('random', 'geomc/random/Random.h')])

prop('P25', 'Random points of shapes lie inside them and are evenly spread',
 'Random unit vectors have unit length and follow the accepted draw; points of balls, shells, boxes, caps, cones, arcs, disks and simplexes lie inside the region for every outcome of the underlying draws, for any radius, angle, axis or partial simplex, including an axis opposite to the default one. The map from uniform draws to points preserves volume, so no part of the region is missed or favoured. Shuffling rearranges the same elements and gives each arrangement for exactly one sequence of draws.',
 ['inputs'], 'all outcomes of the draws (up to two rejections), all radii, angles, boxes and vertices in two and three dimensions; five axes in quick and every axis in thorough; shuffles of up to four elements',
 'Tests use the sampled points as inputs and never look at where they lie; missing or crowded parts of a region cannot be seen in a few samples.',
 ['geomc/random/RandomTools.h', 'geomc/random/SampleGeometry.h'],
 [('sampler', 'geomc/random/RandomTools.h')])
prop('P26', 'Gradient noise is the quintic blend of its lattice ramps',
 'Noise is zero at every lattice point, where its gradient is the slope stored for that point, and inside every cell, negative or distant, it is the quintic blend of the ramps of the corners, so it is continuous. The gradient query returns the same value and the exact derivative, in every dimension including one. All slopes of a new noise have unit length (at most one in one dimension).',
 ['inputs'], 'every point of four chosen cells for all lattice slopes in one, two and three dimensions; the whole slope table of a new noise',
 'The test compares gradients with finite differences at random points of two to four dimensions; lattice values, one dimension and the blend itself are not tested.',
 ['geomc/function/PerlinNoise.h', 'geomc/function/functiondetail/PerlinDetail.h'],
 [('perlin', 'geomc/function/PerlinNoise.h')])

prop('P27', 'Legendre, Chebyshev and spherical harmonic functions match their definitions',
 'Legendre polynomials, their associated forms and integrals, and Chebyshev polynomials of both kinds equal their closed forms. Spherical functions evaluate to the sum of orthonormal harmonics, samples are added as those harmonics, projected directions depend only on the angle between them, and sums, scaling, added constants, inner products and normalisation to unit integral act on the function, for functions of different sizes too. Axially symmetric functions evaluate to their Legendre series, convert to and from general ones (about any axis) without changing the function, reproduce the moments of spots and of the clamped cosine, and convolve by the spherical convolution rule, with the point kernel as identity.',
 ['inputs'], 'all arguments; orders up to 6 (10 thorough); functions of one to four bands with all coefficients (constants compared to 1e-7)',
 'No test covers these functions at all; wrong scale factors in one band only show in an identity that holds for all arguments.',
 ['geomc/function/Basis.h', 'geomc/function/SphericalHarmonics.h'],
 [('harmonics', 'geomc/function/SphericalHarmonics.h'), ('basis', 'geomc/function/Basis.h')])

prop('P28', 'Spline paths interpolate their knots smoothly',
 'A path passes through every knot, there with the velocity of the knot and without curvature, so consecutive pieces join twice differentiably; between two knots it is the quintic blend of their tangent lines. Before the first and after the last knot it continues straight, for every parameter however large or negative, and an empty path gives the origin. Appending a knot leaves the earlier part of the path unchanged.',
 ['inputs'], 'all parameters for up to four knots with all positions and velocities, two and three dimensions',
 'No test covers paths; smoothness at a knot is a statement about all nearby parameters.',
 ['geomc/function/Path.h'],
 [('path', 'geomc/function/Path.h')])

prop('P29', 'A lattice of bins finds every item of a query region exactly once',
 'Every inserted item lies in the cell that contains its location, duplicates included, and iteration visits each item once with its location. A query by box or by centre and radius returns every item inside the closed region, its boundary included, exactly once, returns no item from a cell that the region does not touch, and returns nothing for an empty lattice or an inverted region. Erasing removes exactly one item and clearing all of them.',
 ['inputs', 'histories'], 'up to four items, all locations and query regions within a few cells of the origin, three cell sizes, two and three dimensions',
 'No test covers this container; missing items only show at cell boundaries, negative coordinates or shared cells.',
 ['geomc/shape/BinLatticePartition.h'],
 [('bins', 'geomc/shape/BinLatticePartition.h')])

prop('P30','Trees keep their nodes, items and order consistent through any history of edits',
'After any sequence of insertions, removals, flattening, clearing, splitting, adoption or copying at any place of a tree, every node reports exactly its own children, parent and descendants in sibling-first order, and every node\'s items are exactly those of its leaves in order, with matching counts. An edit never disturbs nodes or items elsewhere, refused edits change nothing, erasing returns the following element, and a destroyed tree releases all memory. Searches and queries visit exactly the nodes of their subtree that pass the given tests, and find the leaf that owns an item.',
['histories','inputs'],
'Seven tree shapes with up to seven nodes and four levels, built in three orders, with all item values; every single edit at every position (every pair of edits in thorough); adoption of every subtree of every shape into every place; splits of leaves with up to four items.',
'The tree is two flat lists with boundary references kept by every ancestor; whether an edit keeps them right depends on which siblings and ancestors are empty, so each test only exercises one of very many placements.',
['geomc/Tree.h'],[('containers','geomc/Tree.h')])

prop('P31', 'A spatial tree of objects finds the nearest object',
 'A spatial tree over a set of objects keeps every object in exactly one leaf whose box contains it, and a nearest-object query returns an object no other object of the tree is closer than.',
 ['inputs', 'histories'], 'all sets of objects and query points',
 'No test covers the spatial tree.',
 ['geomc/shape/KDTree.h', 'geomc/shape/shapedetail/IndexHelpers.h'],
 [('nearest object search', 'geomc/shape/KDTree.h')],
 na='The spatial tree does not compile: instantiating it gives eleven errors (IndexHelpers.h names an incomplete template, removal has an empty body, nearest searches use members that do not exist), so there is no code to execute, symbolically or otherwise. Completing it would be new development, not a repair.')
