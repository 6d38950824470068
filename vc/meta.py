META = {}
META['C09'] = dict(level='proof', hbudget=20,
    note='Loop invariant on the real partition loop (region index i = i*(n div p) + min(i, n mod p)) for all n >= 0, p >= 1; get_region checked against that contract in 1D, 2D, 3D for every process coordinate.',
    trust=['MPI cartesian communicator: Get_topo returns the process grid, Get_coords the coordinates of the rank (stub)'],
    rule='all n < 14, p < 9, then random process grids in 1-3 dimensions; non-trivial: distinct (grid, n)')
META['C24'] = dict(level='proof', hbudget=20, note='hsl_to_rgb executed symbolically for all h, s, l in [0, 1]; postconditions: range, grey, black, white, equality with the sector form of the standard conversion.',
    rule='grid of hues, saturations, lightnesses plus random rationals; distinct triples')
META['C01'] = dict(level='proof', hbudget=40, note='1D and 2D: the real constructor executed symbolically on all integers (number then vector, vector then number, shells of the norm, injectivity by left inverse). 3D is an enumeration over nested loops with permutations: bounded exhaustive check.',
    bounded='3D: all vectors with components up to 3 (quick) or 6 (thorough), all numbers of those shells, plus sampled vectors',
    assume=['square root of an integer is exact enough for the truncation (real square root)'],
    rule='all small vectors and numbers in 1D, 2D, 3D and random larger ones; distinct cases')
META['C02'] = dict(level='proof', hbudget=40, note='Velocity.get_symmetric for all integer vectors in 1D-3D (callee _set_num replaced by its C01 contract); Stencil.get_symmetric for symbolic velocities in eight layouts of one or two schemes (all vectors, bounded number of velocities).',
    bounded='Stencil.get_symmetric: layouts of up to 5 velocities are proved, larger stencils are sampled', rule='all small vectors, random symmetric stencils in random order; distinct cases')
META['C03'] = dict(level='proof', hbudget=30, note='Stencil constructor executed on symbolic velocity numbers (arbitrary, overlapping between schemes, any order) for the listed layouts; callee Velocity._set_coord replaced by its C01 contract.',
    bounded='the number of velocities is fixed per layout (up to 4 in all); larger stencils are sampled', rule='all ordered subsets of five 1D velocities, random stencils; distinct cases')
META['C04'] = dict(level='proof', hbudget=45, note='_permute_consm_in_front for any number of moments and any distinct positions of up to 3 conserved moments (4 in thorough); entries of M and invM M = I proved as identities in the scheme velocity for nine classical schemes and in all polynomial coefficients for D1Q2, D1Q3 and coupled D1Q2 schemes.',
    bounded='the matrix identities are per scheme family; other families are sampled with exact rational arithmetic', trust=['sympy matrix inversion is executed, its result is checked by the identity'],
    rule='classical schemes, every position and order of conserved moments on 3-4 moments, random schemes; distinct cases')
META['C10'] = dict(level='proof', hbudget=30, note='Array constructor, _set_subarray and update executed for all sizes n >= h >= 1, all contents, every storage order in 1D-3D (and every periodicity mask, absent neighbours read as null processes); postcondition at a generic point of the array.',
    trust=['MPI point to point on one process: contract of Irecv, Isend, Waitall and Create_subarray (the harness runs the real MPI)'], assume=['numpy transpose and slice assignment modelled by functional arrays'],
    rule='every storage order on small sizes, then random sizes and halos; distinct cases')
KTRUST = ['mpi4py stubbed (one process)', 'sympy and the /repo code generation are executed per scheme, their output text is what is verified']
META['C06'] = dict(level='translation_validation', hbudget=40,
    note='For each of 26 schemes (classical, permuted moments, several scheme velocities, sources, relative velocity, non symmetric and wide stencils) the text emitted by the real code generation is run with the real containers and call glue on arrays of symbolic sizes and contents; every routine (transport, f2m, m2f, equilibrium, relaxation, source_term, one_time_step) has its contract proved at a generic point, interior or ghost, with the frame conditions.',
    bounded='the schemes are enumerated (kernels are proved for all sizes and contents); random schemes are run against the independent oracle', trust=KTRUST,
    rule='the listed schemes, then random schemes in 1-3 dimensions with random storage order; distinct (scheme, size, order)')
META['C07'] = dict(level='translation_validation', hbudget=60,
    note='Same contracts as C06 on the emitted Cython text (parsed: loop nests over the space, closed form justified by a check of loop-carried dependence), plus in-bounds obligations for every array access since boundscheck is off.',
    bounded='the schemes are enumerated (kernels are proved for all sizes and contents); random compiled schemes are run against the oracle', trust=KTRUST + ['Cython and gcc (the text, not the binary, is proved; the harness runs the binary)'],
    rule='compiled runs of some listed schemes, then random ones; distinct (scheme, size, order)')
META['C08'] = dict(level='translation_validation', hbudget=60,
    note='For every storage order in 1D-3D: logical view contracts of Array (all sizes, halos, contents), and the kernel contracts of C06/C07 for the text emitted with that order (D1Q3, D2Q4, D3Q6, both backends); each routine meeting the same order-independent contract gives the same result. Halo update for every order is C10.',
    bounded='kernels: three schemes for all orders; whole simulations (boundary conditions, obstacles) with an order are compared with the default order on samples', trust=KTRUST,
    rule='every order: array and periodic simulation; then random schemes, orders, walls, obstacles; distinct cases')
META['C05'] = dict(level='translation_validation', hbudget=40,
    note='Emitted NumPy and Cython code of the equilibrium, relaxation and one_time_step routines: m <- (1 - s) m + s meq(m) at a generic point with the permuted rates and equilibria, and the conserved moments of one step equal those of the transported distributions, for arbitrary equilibrium functions and rates on the classical velocity sets, with and without relative velocity (also non null rates on conserved moments).',
    bounded='velocity sets and polynomials are enumerated; random schemes and equilibria given by feq are sampled', trust=KTRUST, rule='listed schemes, feq variants, random schemes; distinct (scheme, size)')
META['C25'] = dict(level='translation_validation', hbudget=40,
    note='Emitted source_term and one_time_step routines: every listed source scheme (several coupled sources, permuted moments, time dependent, free coefficients, with relative velocity, both algorithms, both backends) adds dt/2 S(m before the half step) before and after the relaxation, other moments untouched, for all sizes, contents, dt and t.',
    bounded='source expressions are enumerated (with free coefficients); random ones are sampled', trust=KTRUST, rule='listed schemes, random schemes with sources; distinct (scheme, size)')
META['C26'] = dict(level='translation_validation', hbudget=40,
    note='Scheme constructor: T(u) T(-u) = I and T(u) M = matrix of the polynomials at v - u as polynomial identities in u and the scheme velocity; emitted one_time_step against the moving-frame collision for constant, moment dependent and arbitrary u(m), with sources; with u = 0 the contract of the plain scheme is proved.',
    bounded='schemes are enumerated; random ones are sampled', trust=KTRUST, rule='classical schemes (matrices, null velocity), random schemes; distinct cases')
META['C11'] = dict(level='proof', hbudget=15,
    note='Domain constructor executed on symbolic boxes (any lower bounds, space step > 0, any numbers of cells, any part of the box owned by the process) for 18 stencils with halos 0 to 3; postconditions at a generic index of each coordinate array, on every shape, and the acceptance rule of box lengths for every real length.',
    trust=['MpiTopology.get_region replaced by its contract (C09)'], assume=['a length within dx cells of a multiple is a multiple (the tolerance of the code)'],
    rule='18 stencils, lengths that are not multiples, random boxes; distinct cases')
META['C12'] = dict(level='proof', hbudget=15,
    note='Real __add_init (called by the real constructor) executed on symbolic boxes for 18 stencils: generic interior point, every velocity, symbolic wall labels, periodic and interface sides; postconditions: distance of the first wall, label and normal of a first wall, defaults elsewhere and on the halo.',
    trust=['MpiTopology.get_region replaced by its contract (C09)', 'numpy slices and fancy assignment modelled by functional arrays'], assume=['no wall has the label 999, the value of the links without wall', 'a process owns at least as many cells as the largest velocity'],
    bounded='the stencils are enumerated (18 layouts with velocities up to 3); boxes, points and labels are arbitrary', rule='18 stencils, periodicity masks, random boxes and parts of boxes')
META['C13'] = dict(level='proof', hbudget=25,
    note='distance of circles, ellipses, spheres, ellipsoids, triangles, parallelograms and of the bases of the cylinders executed on symbolic grids of any size, elements, directions and dmax (with and without); postconditions at a generic point: -1 or in (0, dmax], displaced point on the surface, surface not met before, label of the piece, normal unit, orthogonal to the surface and opposite to the direction. Cylinder.distance is verified against the contract of the distance of its base (an abstract closed convex base), with the same postconditions. distance_lines, distance_ellipse, distance_ellipsoid, intersection_two_lines are executed.',
    trust=['numpy broadcasting, masks and fancy assignment modelled by functional arrays', 'the segment from a point out of a closed convex base to a point of it meets the boundary of the base (cylinders)'],
    assume=['the point is not on the surface', 'dmax < 1e16', 'ellipses and ellipsoids have non degenerate axes', 'cylinders, direction parallel to the caps: the point is on the plane of a cap or at least 1e-6 away, and dmax < 1e9', 'machine arithmetic treated as exact'],
    rule='ten element classes, random grids, directions and dmax; distinct cases')
META['C14'] = dict(level='proof', hbudget=20,
    note='point_inside and get_bounds of the ten element classes executed on symbolic parameters: membership at a generic grid point is the closed shape of the parameters (in the frame of the element), and any point of the shape lies within the bounds.',
    trust=['numpy broadcasting modelled by functional arrays', 'numpy.linalg.inv and norm: contract (inverse matrix by Cramer, square root of the sum of squares)'],
    assume=['documented preconditions of the elements (orthogonal axes of ellipses, ellipsoids and circular cylinders, free vectors)', 'machine arithmetic treated as exact'],
    rule='ten element classes, random grids and points of the shape; distinct cases')
META['C15'] = dict(level='proof', hbudget=30,
    note='Real constructor, __add_elem and clean executed for 13 stencils (2D, 3D): one solid or fluid element (any element satisfying the contracts of C13 and C14, on any box) added to an arbitrary domain satisfying the invariant of the links; postconditions at a generic interior point and every velocity: in_or_out is decided by the last element, the invariant is preserved (induction over the sequence of elements), label and normal are those of the recorded distance, clean leaves only the links which leave the fluid, nothing on the halo.',
    trust=['Element contracts: distance and membership (C13, C14)', 'walls of the box (C12), coordinates (C11)', 'numpy slices, masks, where and fancy assignment modelled by functional arrays'],
    assume=['no grid point lies exactly on a surface', 'machine arithmetic treated as exact'],
    bounded='the stencils are enumerated',
    rule='random boxes, stencils, sequences of one to four overlapping solid and fluid elements, partly or entirely out of the box; distinct cases')
META['C16'] = dict(level='proof', hbudget=40,
    note='BoundaryVelocity executed on symbolic flags, distances and normals of any size for every symmetric stencil, every velocity and any label: the list holds each link of the label once, with its distance and normal (rank and position functions of the selection). Boundary.__init__ executed against that contract: lists of any lengths (patterns of empty lists, labels, methods shared between labels and schemes), every link of every label and scheme is stored once in the method of its label and scheme, with its velocity number, label, distance and normal; periodic and interface labels skipped. boundary_condition and _initialize: order of the calls.',
    trust=['np.where, fancy indexing, concatenate modelled by functional arrays and rank functions'],
    assume=['flags of the links: contracts of C12 and C15'],
    bounded='the stencils, the layouts of labels and methods and the patterns of empty lists are enumerated; lengths and contents are arbitrary',
    rule='random schemes, boxes, obstacles, labels and methods: the stored links of the real simulation against an enumeration of the flags')
META['C17'] = dict(level='proof', hbudget=40,
    note='For every symmetric stencil, boundary class and velocity of the link: real set_iload, fix_iload, set_rhs, generate, update on a list of any number of links, any points, distances and distributions; the text generated by generate (NumPy and Cython) is run on functional arrays. Postconditions: the entry of a generic link has the value of the formula of its class, every other entry is kept. One deviation of BouzidiAntiBounceBack for d < 1/2 is a listed finding: there the entry is proved to be either the formula or that deviation, and the harness reports the finding.',
    trust=['Cython and gcc (the text is proved; the harness runs the binary on samples)', 'numpy fancy indexing modelled by functional arrays'],
    assume=['links: contract C16 (an entry is stored once, its inside point is an interior point)', 'NeumannX, Y, Z: used on walls whose inside points are along that axis'],
    bounded='the stencils are enumerated (all symmetric layouts of the list in thorough)',
    rule='five methods on obstacles in 1D-3D, random schemes, boxes, obstacles; both backends; distinct cases')
META['C18'] = dict(level='proof', hbudget=40,
    note='Real BoundaryMethod.__init__, prepare_rhs and update_feq with the real Array, on a list of any number of links of two labels (any distribution of the labels, distances, points), for every combination of values (none, function, function with arguments, function of the time), stencils and storage orders: the user function is called once per label with the wall points inside point - d v dx and the current time, and feq of a generic link is the distribution of the equilibrium of the values at its wall point; labels without value keep zero; update_feq renews the labels depending on the time only.',
    trust=['equilibrium and m2f replaced by their pointwise contracts (C06, C07)', 'numpy fancy indexing modelled by functional arrays'],
    assume=['links: contract C16', 'coordinates are affine in the index (C11)'],
    bounded='the stencils, the storage orders and the combinations of values are enumerated (a sample of the combinations in quick)',
    rule='time, arguments, obstacles in 1D-3D, random schemes, boxes, obstacles; distinct cases')
META['C19'] = dict(level='proof', hbudget=40,
    note='Real m, F, m_halo, F_halo properties and setters, initialization and one_time_step bookkeeping of Simulation and of the containers executed on symbolic fields (all sizes, contents, time steps), the kernels replaced by their contracts: values given (number, function, tuple) are the interior moments or distributions after construction, the others follow equilibrium or the inverse matrix, halos included; what is read after a write or a step is what was written or computed (freshness flags _update_m); t = n dt and nt = n.',
    trust=['the kernels obey their contracts (C05, C06, C07)', 'numpy arrays modelled by functional arrays'],
    assume=['writes go through the setters, not through a view kept by the user', 'the low level phases called by hand (transport, relaxation, ...) are excluded'],
    bounded='the schemes and the kinds of initial values are enumerated', rule='histories of reads, writes and steps on random schemes, every way of giving initial values; distinct cases')
META['C20'] = dict(level='proof', hbudget=20,
    note='Real H5File methods executed by every process of a grid of processes on fields of symbolic sizes and contents, with h5py and MPI recorded: the file written by process 0 holds at the index of a cell the value of its owner, for scalars and vectors in any number of components, coordinates included, and the XDMF item describes dimensions and topology of that array.',
    trust=['h5py', 'MPI point to point (non overtaking), row major numbering of the Cartesian communicator', 'the arrays sent are contiguous as numpy makes them'],
    assume=['XDMF in dimension 1 has no rectilinear mesh: only the items are specified', 'missing directories are made one level deep as the code documents'],
    bounded='process grids are enumerated (sizes of the parts are arbitrary)', rule='fields, process grids, file names; distinct cases')
META['C21'] = dict(level='proof', hbudget=30,
    note='Root location: is_S, is_svN, is_vN with the reduced polynomial, its reverse and its derivative executed on arbitrary complex coefficients for each degree up to 9 (19 in thorough), the recursive call replaced by its contract; the three cases of the reduction theorem are the postconditions, with a tolerance band of 1e-4 (relative) left free. algo_cohn_schur: the tested polynomial is det(z I - G) for arbitrary matrices of size up to 4. Stability constructor: the matrix of the collision is its derivative at any point, for each scheme (arbitrary equilibria, rates, scheme velocity, relative velocity). eigenvalues: matrix given to the root test and to the eigenvalue solver for arbitrary collision matrices, and verdict for every answer of the root test.',
    trust=['reduction theorem of Schur, Cohn and Miller on the polynomials with roots in the disc', 'numpy.linalg.eig', 'modulus of complex numbers abstracted: only homogeneity and sign are used'],
    assume=['machine arithmetic treated as exact (the tolerance of the code is checked against a band)'],
    bounded='degrees, matrix sizes, wave vector grids and schemes are enumerated', rule='polynomials with roots away from the circle by at least 0.02, unitary similarities, linearised schemes in 1D-3D; distinct cases')
META['C22'] = dict(level='proof', hbudget=30,
    note='The real constructor is executed for each scheme with arbitrary equilibria, rates, scheme velocity and relative velocity (functions and symbols); postconditions: the first order coefficients are the moments of v f_eq, the second order ones are -B sigma (derivative of the flux of the equilibrium), sigma = 1/s - 1/2 in the frame of the relaxation, for every pair of directions and of conserved moments. The expansion itself is checked by the replay harness: slow manifold of the linearised scheme at small wave numbers.',
    trust=['sympy matrix products and derivatives executed by the constructor', 'expansion of the slow manifold (Chapman-Enskog): the formula is the specification'],
    assume=['non zero rates of the non conserved moments', 'no source term (not supported upstream)'],
    bounded='schemes are enumerated (about 45 families)', rule='linearised schemes in 1D-3D at random states, relative velocity or not; distinct cases')
META['C27'] = dict(level='proof', hbudget=40,
    note='One step of the real Simulation (boundary_condition, Array.update, emitted kernel, swap, read of the moments) on any box size and any values: at every interior point the conserved moments are the sums of the distributions of the points x - v of the torus; methods are called in order and the kernel reads the array they modified. Lemmas for any box size and velocity, any shape of the fluid: the map (x, v) -> value read is one to one on the torus, and between walls with reflection. Reflection: the bounce back routine of C17 for every link. Uniform equilibrium: the emitted kernel on an equilibrium constant in space returns it. The sum over the grid and any number of steps follow by induction.',
    trust=['sum over a finite set invariant under a one to one map', 'MPI on one process: a message to itself is received (C10)', 'links of the boundary are those of the solid neighbours (C16) and their order (C14)'],
    assume=['machine arithmetic treated as exact: totals up to rounding', 'no source term; elements are the same through the periodic borders; box not smaller than the largest velocity'],
    bounded='schemes are enumerated, with arbitrary equilibria and rates for the main families', rule='periodic boxes, boxes with walls and obstacles with bounce back, uniform states; distinct cases')
TECH = 'contract-based deductive verification: symbolic execution of the real source to verification conditions, discharged by z3/cvc5; runtime-contract replay'
NA = {
 'C23': 'the acceptance rule is the cerberus schema interpreter itself (external library): there is no specification of the documented format other than the schema tables, so a contract would restate them',
 'C28': 'a property of concurrent processes and message orders: outside sequential contracts (the per-process parts are C09 and C10)',
 'C29': 'numpy-stl is not installed here: the module cannot be executed or replayed',
}
