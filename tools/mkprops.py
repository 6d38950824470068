"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))

I = ["inputs"]
prop("C01", "Velocity numbers and velocity vectors are in bijection",
 "In dimension 1, 2 and 3, creating a velocity from an integer vector, reading its number and creating a velocity from that number gives the same vector back, and every number >= 0 yields a vector whose own number is that number (in 3D for components of magnitude below 100). The numbers start at 0 for the null velocity and a velocity of larger maximum norm always has a larger number.",
 I, "all integer vectors and all numbers >= 0 in 1D and 2D, all vectors with components below 100 in 3D",
 "tests check about twenty hand-picked velocities; the numbering is a closed formula (1D, 2D) or an enumeration (3D) over an infinite set",
 ["pylbm/stencil.py"], [("Velocity._set_num / Velocity._set_coord", "pylbm/stencil.py"), ("permute_in_place", "pylbm/stencil.py")],
 observe=["Velocity(vx=..., vy=..., vz=...).num", "Velocity(dim=..., num=...).v"])
prop("C02", "Symmetric velocity and symmetric index maps are exact",
 "The symmetric of a velocity about the origin negates every component, and about an axis negates every component but that axis's one; applying it twice gives the velocity back. For any stencil whose schemes are symmetric, the stencil's symmetric index map sends each velocity to the opposite (respectively axis-reflected) velocity of the same elementary scheme.",
 ["inputs", "configurations"], "all velocities; all lists of elementary schemes closed under the symmetry, in any velocity order",
 "tests check single velocities and one stencil; the claim is over all vectors, velocity orderings and multi-scheme layouts",
 ["pylbm/stencil.py"], [("Velocity.get_symmetric", "pylbm/stencil.py"), ("Stencil.get_symmetric", "pylbm/stencil.py"), ("Stencil.get_all_velocities", "pylbm/stencil.py")],
 observe=["Velocity.get_symmetric", "Stencil.get_symmetric"])
prop("C03", "The stencil describes exactly the requested velocities",
 "For any list of elementary schemes, the stencil lists for each scheme exactly the requested velocity numbers in the requested order, the array of all velocities concatenates the schemes' vectors in that order with matching offsets, and the set of unique velocities contains each requested velocity once with consistent number, component and index tables. The reported maximal velocity of each direction is the largest magnitude of that component over all requested velocities and the minimal one is its smallest value.",
 ["inputs", "configurations"], "all dimensions, numbers of schemes, velocity subsets and orders",
 "tests use a few contiguous velocity ranges; reordered, overlapping and sparse lists are not exercised",
 ["pylbm/stencil.py"], [("Stencil.__init__", "pylbm/stencil.py"), ("Stencil.get_all_velocities", "pylbm/stencil.py")],
 observe=["Stencil attributes nv, nv_ptr, v, num, vx/vy/vz, unum, unum2index, unvtot, vmin, vmax"])
prop("C04", "Moment matrix evaluates the polynomials and its inverse is exact",
 "For every scheme, entry (i, j) of the moment matrix is the i-th declared polynomial evaluated at the j-th velocity scaled by the scheme velocity, coupled schemes occupy disjoint diagonal blocks, and the inverse matrix times the moment matrix is the identity. The conserved moments are placed first, in the declared order, by one permutation applied alike to equilibria, relaxation rates, rows of the moment matrix and columns of its inverse, whatever positions they had in the user's lists.",
 ["inputs", "configurations"], "all polynomial families giving an invertible matrix, all positions and declaration orders of the conserved moments, all scheme velocities",
 "tests print a few schemes; the declaration order of conserved moments and multi-scheme layouts vary freely in user code",
 ["pylbm/scheme.py"], [("Scheme._create_moments_matrices", "pylbm/scheme.py"), ("Scheme._permute_consm_in_front", "pylbm/scheme.py")],
 [("Scheme.M, Scheme.invM", "moment matrix and inverse", "pylbm/scheme.py")], ["Scheme.M", "Scheme.invM", "Scheme.EQ", "Scheme.s", "Scheme.consm"])
prop("C05", "Collision relaxes each moment to equilibrium and keeps conserved ones",
 "At every grid point the collision replaces each moment m by (1 - s) m + s m_eq with that moment's own relaxation rate and its declared equilibrium evaluated on the current moments. Conserved moments are left unchanged, with relative velocity or not, whatever the values of the distribution functions.",
 ["inputs", "configurations"], "all moment values, relaxation rates, equilibria, schemes",
 "tests compare a handful of runs with stored reference files; a wrong rate on one moment can hide below the tolerance or in an untested scheme",
 ["pylbm/algorithm/base.py", "pylbm/algorithm/pull.py", "pylbm/scheme.py"], [("BaseAlgorithm.relaxation_local / equilibrium_local", "pylbm/algorithm/base.py"), ("Scheme.set_source_terms", "pylbm/scheme.py")],
 observe=["Simulation.relaxation()", "Simulation.equilibrium()"])
prop("C06", "The generated NumPy kernels implement the scheme",
 "For every scheme the generated NumPy routines compute, at every point, m = M f and f = M^-1 m, the equilibrium and relaxation formulas, and a transport in which each interior value f_k(x) becomes the previous f_k(x - v_k) with no other entry of any array modified. The one-time-step routine equals transport, moments, source terms, relaxation and inverse transform composed in that order on the interior.",
 ["inputs", "configurations"], "all schemes, all grid sizes, all values of the distribution functions",
 "tests run fixed schemes on fixed grids and compare final fields to stored files with a tolerance",
 ["pylbm/algorithm/base.py", "pylbm/algorithm/pull.py", "pylbm/algorithm/transform.py", "pylbm/generator/printing/pycode.py", "pylbm/generator/autowrap.py", "pylbm/generator/codegen.py", "pylbm/symbolic.py"],
 [("BaseAlgorithm.f2m/m2f/transport/equilibrium/relaxation", "pylbm/algorithm/base.py"), ("NumPyPrinter", "pylbm/generator/printing/pycode.py")],
 observe=["Simulation.algo.generator.module", "Simulation methods with generator='NUMPY'"])
prop("C07", "The generated Cython kernels implement the scheme, memory safely",
 "For every scheme the generated Cython routines compute the same functions of their inputs as the mathematical scheme (hence as the NumPy backend) and never read or write outside the arrays they are given. This holds for every grid size and storage layout accepted by the simulation.",
 ["inputs", "configurations"], "all schemes, grid sizes, storage layouts, values",
 "bounds checking is switched off in the generated code, so an out-of-range access is silent; tests compare a few runs only",
 ["pylbm/algorithm/base.py", "pylbm/algorithm/pull.py", "pylbm/generator/printing/cython.py", "pylbm/generator/codegen.py", "pylbm/generator/autowrap.py", "pylbm/symbolic.py"],
 [("CythonCodePrinter", "pylbm/generator/printing/cython.py"), ("PullAlgorithm.one_time_step_local", "pylbm/algorithm/pull.py")],
 observe=["Simulation with generator='CYTHON'"])
prop("C08", "Results do not depend on the storage order",
 "The field arrays give the same logical content [component, x, y, z] whatever axis order is chosen for their storage in memory: reading and writing through the logical view is exact, and a simulation run with any storage order gives the same moments and distribution functions as with the default order.",
 ["configurations", "inputs"], "all permutations of the storage axes, all grid sizes including different sizes per direction",
 "only two permutations on square grids are used by the tests",
 ["pylbm/storage.py", "pylbm/symbolic.py", "pylbm/algorithm/base.py", "pylbm/simulation.py"], [("Array", "pylbm/storage.py"), ("set_order / indexed / space_loop", "pylbm/symbolic.py")],
 observe=["Array.swaparray", "Simulation(..., sorder=...)"])
prop("C09", "The domain partition over processes is an exact balanced cover",
 "For every number of points and every number of processes per direction, the regions attributed to the processes are consecutive intervals starting at 0 and ending at the number of points, so that each point belongs to exactly one process. The sizes of two regions of the same direction differ by at most one.",
 ["inputs", "configurations"], "all numbers of points n >= 0 and of processes p >= 1, every process coordinate",
 "tests run on one process only",
 ["pylbm/mpi_topology.py"], [("MpiTopology.get_region_indices_", "pylbm/mpi_topology.py"), ("MpiTopology.get_region", "pylbm/mpi_topology.py")],
 observe=["MpiTopology.get_region_indices", "MpiTopology.get_region"])
prop("C10", "Halo update copies exactly the periodic images into the ghost layers",
 "After a halo update on one process, every ghost point (faces, edges and corners) of every component holds the value of the interior point it is the periodic image of, and no interior value is modified.",
 ["inputs", "configurations"], "all array contents, grid sizes at least the halo width, halo widths, numbers of components, storage orders",
 "tests only see it through full simulations on fixed sizes",
 ["pylbm/storage.py", "pylbm/mpi_topology.py"], [("Array.set_subarray / Array.update", "pylbm/storage.py")],
 observe=["Array.update()"])
prop("C11", "Grid coordinates are cell centres of the box, ghosts included",
 "For a box and a space step dividing it, the interior coordinates in each direction are min + (i + 1/2) dx for i in 0..n-1 with n = length / dx, and the coordinates including the ghost points continue that same progression by the halo width on each side. The computed shapes of all arrays of the domain agree with these counts and a box that is not a multiple of the space step is reported.",
 ["inputs", "configurations"], "all boxes, space steps, halo widths, dimensions",
 "tests visualise ten fixed domains",
 ["pylbm/domain.py"], [("Domain.__init__ / create_coords", "pylbm/domain.py")],
 observe=["Domain.x, y, z, x_halo, y_halo, z_halo, shape_halo, shape_in"])
prop("C12", "Box walls: distance, label and normal seen from every interior point",
 "For every interior point and velocity whose target leaves the box, the recorded distance is the fraction of the displacement at which the first wall is met (half-integer values over the velocity component), the label is the one of a wall of that smallest distance and the outward normal is that wall's; a periodic side (label -1) is recorded only when the link meets no wall. Every link staying in the box and its fluid keeps the default value, and points outside the box are marked as outside.",
 ["inputs", "configurations"], "all box sizes, stencils, labels per side, interior points, velocities",
 "tests look at images of fixed domains",
 ["pylbm/domain.py"], [("Domain.__add_init", "pylbm/domain.py")],
 observe=["Domain.distance", "Domain.flag", "Domain.normal", "Domain.in_or_out"])
prop("C13", "Element distance is the first intersection with the element's surface",
 "For every element (circle, ellipse, triangle, parallelogram, sphere, ellipsoid, parallelepiped, cylinders), point outside the element and direction v, the distance routine returns the smallest t in (0, dmax] at which the point displaced by t v lies on the element's surface, with the label of the piece of surface hit, and a no-hit value if there is none. The returned normal is the unit vector orthogonal to the surface at that point, opposite to the direction. Points exactly on the surface are excepted.",
 I, "all positions, sizes, orientations, directions and points",
 "tests check a few directions of unit shapes",
 ["pylbm/elements/base.py", "pylbm/elements/utils.py", "pylbm/elements/circle.py", "pylbm/elements/ellipse.py", "pylbm/elements/ellipsoid.py", "pylbm/elements/sphere.py", "pylbm/elements/triangle.py", "pylbm/elements/parallelogram.py", "pylbm/elements/cylinder.py"],
 [("distance_lines / distance_ellipse / distance_ellipsoid", "pylbm/elements/utils.py"), ("BaseCircle/… .distance", "pylbm/elements/base.py"), ("Cylinder.distance", "pylbm/elements/cylinder.py")],
 observe=["Element.distance(grid, v, dmax, normal=True)"])
prop("C14", "Point membership is the closed shape and the bounds contain it",
 "For every element, a grid point is reported inside exactly when it belongs to the closed geometrical shape described by the element's parameters. The element's bounds always contain the whole shape.",
 I, "all element classes, parameters and points (points within rounding of the surface excepted)",
 "tests check a few points of unit shapes; bounds are hardly tested",
 ["pylbm/elements/base.py", "pylbm/elements/circle.py", "pylbm/elements/ellipse.py", "pylbm/elements/ellipsoid.py", "pylbm/elements/sphere.py", "pylbm/elements/triangle.py", "pylbm/elements/parallelogram.py", "pylbm/elements/cylinder.py"],
 [("point_inside / get_bounds", "pylbm/elements/base.py, pylbm/elements/cylinder.py")],
 observe=["Element.point_inside(grid)", "Element.get_bounds()"])
prop("C15", "Solid and fluid elements compose in order on the domain",
 "After building a domain, a box point is fluid exactly when the last element containing it is a fluid one, or when no element contains it. A distance, a label and a normal are recorded for a point and a velocity only if the point is fluid and the displaced point is not, the label being that of a boundary met by the link, and every such link of the box interior has one.",
 ["inputs", "configurations"], "all sequences of overlapping elements, box and space steps, stencils",
 "tests render a few geometries as images compared with a tolerance",
 ["pylbm/domain.py", "pylbm/geometry.py"], [("Domain.__add_elem / clean", "pylbm/domain.py"), ("Geometry.add_elem", "pylbm/geometry.py")],
 observe=["Domain.in_or_out", "Domain.distance", "Domain.flag"])
prop("C16", "Each boundary link is stored and processed exactly once",
 "For every label and velocity, the boundary machinery enumerates exactly the outside points reached from a fluid point through a wall of that label, once each, and pairs each stored value with the distribution, position and distance of that same link. After boundary conditions are applied, only the enumerated outside entries of the distribution functions have changed.",
 ["inputs", "configurations"], "all domains, stencils (multi-scheme included), labels, methods per scheme",
 "tests run fixed demos; index pairing errors on rare links are averaged out",
 ["pylbm/boundary.py"], [("BoundaryVelocity", "pylbm/boundary.py"), ("Boundary", "pylbm/boundary.py"), ("BoundaryMethod.set_iload / get_istore", "pylbm/boundary.py")],
 observe=["Boundary.bv_per_label", "BoundaryMethod.istore, iload, distance", "Simulation.boundary_condition()"])
prop("C17", "Boundary conditions apply their defining formula on every link",
 "With boundary links between an inside point x and outside point x + v_k, bounce back sets the incoming distribution to the outgoing opposite one (anti bounce back to its negative), Bouzidi interpolates with the wall distance according to its published formula, and the Neumann conditions copy the value of the inside neighbour (in the direction of the condition); imposed equilibrium values are added with the matching sign. This holds on both backends.",
 ["inputs", "configurations"], "all link positions, distances, distribution values, stencils",
 "tests compare final fields of a few demos with a tolerance",
 ["pylbm/boundary.py"], [("BounceBack, BouzidiBounceBack, AntiBounceBack, BouzidiAntiBounceBack, Neumann*", "pylbm/boundary.py")],
 observe=["Simulation.boundary_condition()"])
prop("C18", "Boundary values are evaluated at the wall point and the current time",
 "A user function giving boundary values receives for each link the coordinates of the point where the link meets the wall, that is the inside point displaced by distance times velocity times space step, together with the user's extra arguments. The right-hand side of the boundary condition is derived from the equilibrium of exactly the moments set by that function at that link, and time-dependent values are refreshed with the simulation time.",
 ["inputs", "configurations", "histories"], "all domains, links, user functions and extra arguments, times",
 "tests use constant or symmetric values for which a shifted position is invisible",
 ["pylbm/boundary.py", "pylbm/simulation.py"], [("BoundaryMethod.prepare_rhs / set_rhs / update_feq", "pylbm/boundary.py"), ("Boundary / Simulation.initialization", "pylbm/simulation.py")],
 observe=["BoundaryMethod.feq, rhs", "arguments received by user value functions"])
prop("C19", "Moments and distributions stay consistent through any call sequence",
 "Whatever sequence of reads, writes, initialisations and time steps is applied to a simulation, the interior moments it returns satisfy m = M f with the interior distribution functions it returns, the values written by the user are those read back, and each time step increases the iteration counter by one and the time by the time step. Reading a field never changes the physical state.",
 ["histories"], "all sequences of public operations (reads, writes, steps)",
 "tests follow a single pattern: run then read",
 ["pylbm/simulation.py", "pylbm/container.py"], [("Simulation.m / F / m_halo / F_halo properties", "pylbm/simulation.py"), ("Simulation.one_time_step", "pylbm/simulation.py")],
 [("_update_m", "moments need recomputing from F", "pylbm/simulation.py")], ["Simulation.m, .F, .t, .nt, .one_time_step()"])
prop("C20", "Saved files contain the global fields and grid",
 "For any domain, a saved HDF5 file contains for each registered scalar or vector field the values of the corresponding arrays over the global grid at the right positions, and the grid coordinates. The companion XDMF file references those data sets with matching dimensions, and successive saves use distinct file names in increasing order.",
 ["inputs", "configurations"], "all dimensions, grid sizes, fields",
 "tests compare field files of demos produced by the same writer",
 ["pylbm/hdf5.py"], [("H5File", "pylbm/hdf5.py")],
 observe=["files written by H5File.save()"])
prop("C21", "Linear stability verdict agrees with the spectral radius",
 "For every linear(ised) scheme the amplification matrix of a wave vector is the one of the transport-relaxation step, the eigenvalues returned are those of that matrix, and the scheme is declared stable only if every eigenvalue has modulus at most one over all tested wave vectors. The algebraic root-location test on the characteristic polynomial gives the same answer as computing the roots, away from the unit circle by more than the tolerance.",
 ["inputs", "configurations"], "all complex polynomials, all linear schemes and parameters, all wave vectors",
 "tests compare a few polynomials with known roots",
 ["pylbm/analysis/stability.py"], [("algo_cohn_schur, is_S, is_svN, is_vN", "pylbm/analysis/stability.py"), ("Stability", "pylbm/analysis/stability.py")],
 observe=["algo_cohn_schur(poly)", "Stability.eigenvalues", "Stability.is_stable_l2"])
prop("C22", "Equivalent equations are the Taylor expansion of the scheme",
 "The equivalent equations reported for a scheme are the second-order Taylor expansion in the time step (acoustic scaling) of the scheme restricted to its conserved moments: the first order terms are the divergence of the equilibrium fluxes and the second order terms carry the coefficients 1/s - 1/2 of each non conserved moment.",
 ["configurations"], "all mono- and multi-scheme families with up to a few conserved moments",
 "tests compare with a few published cases",
 ["pylbm/analysis/equivalent_equation.py"], [("EquivalentEquation", "pylbm/analysis/equivalent_equation.py")],
 observe=["EquivalentEquation"])
prop("C23", "Ill-formed dictionaries are rejected, well-formed ones are accepted",
 "A dictionary describing a simulation is accepted exactly when every key has the documented type and values, and an ill-formed dictionary is reported before any computation starts.",
 I, "all user dictionaries",
 "tests check a few ill-formed dictionaries",
 ["pylbm/validator.py"], [("validate", "pylbm/validator.py")], observe=["validate(dico, classname)"])
prop("C24", "Colour conversion maps hue, saturation and lightness to valid RGB",
 "For every hue and every saturation and lightness in [0, 1] the converted colour has its three channels in [0, 1], is grey when the saturation is zero, black for lightness 0 and white for lightness 1, and agrees with the standard HSL to RGB conversion.",
 I, "all real hues in [0, 1], saturations and lightnesses in [0, 1]",
 "no test checks the conversion",
 ["pylbm/utils.py"], [("hsl_to_rgb", "pylbm/utils.py")], observe=["pylbm.utils.hsl_to_rgb"])
prop("C25", "Source terms are integrated by explicit Euler half steps around the relaxation",
 "For a scheme with source terms, each time step adds dt/2 times its source term to every conserved moment that has one, before the relaxation and again after it: all the sources of a half step are evaluated with the moments before that half step (explicit Euler, whatever the order of the moments) and with the time of the simulation, and the other moments are untouched. With a relative velocity the sources act on the moments of the fixed frame. A scheme without source terms is unaffected.",
 ["inputs", "configurations"], "all source expressions, moment values, time steps, orders of the moments",
 "tests use one demo; an error in a half step changes results by O(dt^2) only",
 ["pylbm/algorithm/base.py", "pylbm/algorithm/pull.py", "pylbm/algorithm/ode.py"], [("ode solvers", "pylbm/algorithm/ode.py"), ("BaseAlgorithm.source_term_local", "pylbm/algorithm/base.py")],
 observe=["Simulation.source_term()", "generated one_time_step"])
prop("C26", "Relative velocity frames do not change the conserved moments",
 "With a relative velocity u, relaxation is performed on the moments translated by u: transformation by the translation matrix T(u), relaxation, then transformation by T(-u), where (for polynomials spanning a space stable by translation) T(u) T(-u) is the identity and T(u) M is the matrix of the polynomials evaluated at the velocities minus u. The conserved moments of the fixed frame are unchanged by the collision. With u = 0 the scheme is the one without relative velocity.",
 ["inputs", "configurations"], "all schemes, relative velocities and moments",
 "tests compare one demo against a stored file",
 ["pylbm/scheme.py", "pylbm/algorithm/base.py", "pylbm/algorithm/pull.py"], [("Scheme Tu, Tmu", "pylbm/scheme.py"), ("relaxation_local with relative velocity", "pylbm/algorithm/base.py")],
 observe=["Scheme.Tu", "Scheme.Tmu", "generated kernels"])
prop("C27", "Total of conserved moments is exactly transported",
 "On a fully periodic box, or a box closed by bounce back walls without imposed values for the mass, the total over fluid points of a conserved moment (mass for walls) is unchanged by any number of time steps, up to rounding. Advancing a uniform equilibrium state on a periodic box leaves it unchanged.",
 ["inputs", "histories", "configurations"], "all schemes, initial states, grid sizes, numbers of steps",
 "tests check fields of a few runs after a fixed number of steps",
 ["pylbm/simulation.py", "pylbm/storage.py", "pylbm/boundary.py", "pylbm/algorithm/pull.py"], [("Simulation.one_time_step", "pylbm/simulation.py")],
 observe=["sum of Simulation.m[...] over the grid"])
prop("C28", "A run on several processes equals the run on one process",
 "A simulation run on any number of processes and any process grid gives, once gathered, the same fields as the run on a single process.",
 ["schedules", "configurations"], "all process counts, process grids and message orders",
 "tests run on one process",
 ["pylbm/mpi_topology.py", "pylbm/storage.py", "pylbm/domain.py"], [("Array.update", "pylbm/storage.py"), ("Domain interfaces", "pylbm/domain.py")])
prop("C29", "STL surfaces: membership and distances follow the triangulation",
 "For a closed triangulated surface read from an STL file, membership, distances, labels and normals agree with the geometry of its triangles.",
 I, "all closed triangulations and grids", "no test reads a non trivial surface here (numpy-stl is optional)",
 ["pylbm/elements/stl_element.py"], [("intersection, STLElement.point_inside / distance", "pylbm/elements/stl_element.py")])
prop("C30", "Printed expressions evaluate to the symbolic expressions they print",
 "The code printed by the NumPy and Cython printers for an arithmetic expression (sums, products, quotients, powers, roots, elementary functions, relations and piecewise expressions) evaluates, for all values of its symbols where both are defined, to the value of the symbolic expression.",
 ["programs", "inputs"], "all expressions of the supported grammar, all values",
 "tests run the printers on the expressions of the demos",
 ["pylbm/generator/printing/pycode.py", "pylbm/generator/printing/cython.py"], [("NumPyPrinter / CythonCodePrinter", "pylbm/generator/printing")],
 observe=["text returned by the printers, evaluated"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
