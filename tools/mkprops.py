#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the list stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

API = ["get_macro_stress / get_macro_ctan / get_nl_flag", "micropp_*.dat, micropp_<gp>_<step>.vtu"]

prop("C01", "Only update commits history, and it commits the latest homogenization",
 "Homogenizing is a trial: however often a Gauss point is homogenized, with whatever strains, its stored history changes only when the internal variables are updated, and what the update stores is exactly the state reached by that point's most recent homogenization. Abandoned trials leave no trace, repeating a homogenization or an update changes nothing, and homogenizing again at the strain just committed reproduces the committed stress.",
 ["histories"], "every sequence of set-strain, homogenize, update (in any order and repetition) on any Gauss point, yielding or not, in 3D cells with plastic material; reproducing the committed stress where the equilibrium iteration converges",
 "the tests only run set-homogenize-update once per step with growing strain and assert nothing about the values; a discarded or repeated trial, an elastic retry after a plastic trial, or an update without a new homogenization never occurs",
 ["src/homogenize.cpp", "src/assembly.cpp", "include/micro.hpp"],
 [("trial variables kept apart from committed ones", "homogenize(): int_vars_k / int_vars_n"), ("commit", "update_vars()"), ("material state recomputed from committed variables only", "get_stress3D(): vars_old -> vars_new")],
 [("int_vars_n", "committed plastic strain and hardening of the point", "gp_t"), ("int_vars_k", "pending state of the latest homogenization", "gp_t")], API)

prop("C02", "Gauss points are independent of each other",
 "The stress, tangent, non-linear flag and stored history of a Gauss point are determined by the calls that concern that point alone: which other identifiers exist, in which order they were introduced, and what strains and histories they carry never changes its results beyond solver tolerance. Setting a strain for a known identifier replaces only that point's strain; an unknown identifier creates exactly one new point with no history.",
 ["histories", "inputs"], "every interleaving of calls on any number of Gauss points with arbitrary integer identifiers (negative, repeated, unordered)",
 "only one test uses two Gauss points, gives both the same strain and never compares them with a run of one point alone",
 ["src/homogenize.cpp", "src/micro.cpp"],
 [("per-point record looked up by identifier", "set_macro_strain(), getters"), ("shared work arrays reloaded for each point", "homogenize(): vars_old from the point or zero")],
 [("gauss_list", "one record per identifier, in order of introduction", "micropp_t")], API)

prop("C03", "Queries and outputs never change later results",
 "Reading stress, tangent or flag, writing the information files and writing a field snapshot leave the state of the simulation alone: with or without such calls, at any point of a history, every later stress, tangent, flag and stored history is the same within solver tolerance, and strains or parameters handed in are copied, so changing the caller's arrays afterwards has no effect. Asking for an identifier that was never set reports no non-linearity, writes no values and no file, and creates nothing.",
 ["histories"], "every placement of queries, output() and write_info_files() inside every history, for known and unknown identifiers",
 "the tests call output and write_info_files at the end of each step and never compare with a run that does not",
 ["src/output.cpp", "src/homogenize.cpp", "src/micro.cpp"],
 [("output() recomputes into shared scratch arrays", "output(), calc_fields()"), ("homogenize reloads all scratch state", "homogenize()")],
 [("u, vars_old, vars_new", "scratch fields shared by homogenize() and output()", "micropp_t")], API)

prop("C04", "Plastic response follows the J2 radial-return law",
 "In a 3D cell made of one plastic material the macroscopic stress is, at every step of every strain path, the J2 result: elastic with the given bulk and shear moduli while the trial deviatoric norm does not exceed sqrt(2/3)(Sy + Ka*alpha), otherwise the trial deviator scaled back radially onto that surface, alpha being the hardening committed before the step. The update adds the plastic flow along the trial deviator to the plastic strain and sqrt(2/3) times its norm to alpha; mean stress stays elastic, alpha never decreases, and elastic steps leave both unchanged.",
 ["inputs", "histories"], "every strain path (proportional or not, all six components, reversals, any step size for which the equilibrium iteration converges), every E>0, 0<=nu<0.5, Sy, Ka>=0",
 "the tests drive one component monotonically for a few steps and assert no value; shear, non-proportional paths and unloading never occur",
 ["src/assembly.cpp"],
 [("return mapping", "plastic_step()"), ("internal variables per element integration point", "get_stress3D(), intvar_ix")],
 [("eps_p, alpha", "plastic strain (tensor components) and accumulated hardening", "vars_old / vars_new")], API)

prop("C05", "The non-linear flag is raised exactly when something yields",
 "After a homogenization that solves the cell, the non-linear flag of a Gauss point is set if and only if some integration point of some plastic element exceeded its yield limit in this or an earlier such homogenization of that Gauss point; a single yielding integration point anywhere in the cell suffices. The flag never goes back to zero, is zero for unknown identifiers, and is never set by linear materials or in 2D.",
 ["inputs", "histories"], "every cell, position of the yielding integration point and load for which the equilibrium iteration converges; every sequence of homogenizations",
 "no test reads the flag, and in the tested loads all integration points of an element yield together",
 ["src/assembly.cpp", "src/homogenize.cpp", "src/micro.cpp"],
 [("flag collected over integration points and elements", "get_elem_rhs3D(), assembly_rhs()"), ("storage allocated on first yield, flag = storage present", "homogenize(), get_nl_flag()")],
 [("int_vars_n != NULL", "the point has yielded at least once", "gp_t")], API)

prop("C06", "The linear shortcut is taken exactly below the given threshold",
 "A Gauss point that has never yielded and whose linear-elastic macroscopic stress has a first invariant (2D: two normal components, 3D: three) smaller in absolute value than the threshold given at construction is answered without solving the cell: stress is the linear tangent times the strain and the tangent is the linear one. In every other case, in particular with threshold 0 or once the point has yielded, the cell is solved; for a cell that stays elastic both ways give the same answer.",
 ["inputs", "histories"], "every threshold, strain and history, 2D and 3D, on both sides of the threshold",
 "one test sets a non-zero threshold and checks no result; which branch is taken is never observed",
 ["src/homogenize.cpp", "src/micro.cpp"],
 [("threshold test", "is_linear(), get_inv_1()"), ("linear tangent computed at construction", "calc_ctan_lin()"), ("branch", "homogenize()")],
 [("inv_tol", "threshold", "micropp_t"), ("ctan_lin", "linear tangent", "micropp_t")], API)

prop("C07", "The tangent is the derivative of the stress at the committed state",
 "After homogenization, entry (i,j) of the tangent is the derivative of stress component i with respect to strain component j (engineering shears), taken at the point's current strain with its committed history, in row-major order: the elastic tangent in elastic states and the algorithmic J2 tangent of the return mapping where the material flows. For linear cells tangent times strain equals the stress and the tangent is symmetric; computing the tangent changes neither the stress nor what a later update commits.",
 ["inputs", "histories"], "every strain and history away from exact yield-surface touching, 2D and 3D, moduli of engineering size (about 1e5 and more, so that the solver's absolute tolerances resolve the perturbation)",
 "one test prints three rows of a 2D tangent; nothing is compared with anything",
 ["src/homogenize.cpp"],
 [("forward differences over all strain components", "homogenize(), calc_ctan_lin()")],
 [("macro_ctan", "last tangent", "gp_t")], API)

prop("C08", "Linear cells: affine boundary, discrete equilibrium, exact stress",
 "For a cell of linear materials, of any grid size, edge lengths, microstructure and imposed strain, the displacement is the affine field of the strain on every boundary node, every interior node is in force equilibrium with the exact bilinear/trilinear element stiffness of the material at each element (plane strain in 2D), and the macroscopic stress is the volume average of the resulting stresses.",
 ["inputs", "configurations"], "all grids with at least 2 nodes per direction, all positive edge lengths, both microstructures, all strains, 0<=nu<0.5, moduli of engineering size (about 1e5 and more)",
 "the tests run two equal materials on one cube or square and assert nothing; no heterogeneous 3D cell, no unequal spacing, no check of equilibrium",
 ["src/assembly.cpp", "src/solve.cpp", "src/ell.cpp", "src/homogenize.cpp"],
 [("boundary displacement", "set_displ()"), ("element matrices and residuals", "get_elem_mat2D/3D, get_elem_rhs2D/3D, calc_bmat_3D"), ("assembly, boundary rows, solver", "assembly_mat(), assembly_rhs(), ell_*"), ("Newton iteration", "newton_raphson()")],
 [("u", "nodal displacement", "micropp_t")], API)

prop("C09", "Averages: the cell carries the imposed strain and reports mean stress",
 "For every cell, linear or plastic, the volume average of the strain field equals the imposed macroscopic strain, and the reported macroscopic stress equals the volume average of the element stress field of the snapshot taken at the same strain and history. Both hold for all edge lengths, also when they differ from 1 and from each other.",
 ["inputs", "configurations"], "all 2D and 3D cells, grids, edge lengths, strains and histories",
 "all tests use a cell of unit size and compare no average",
 ["src/assembly.cpp"],
 [("averages", "calc_ave_stress(), calc_ave_strain(), calc_fields()")],
 [("elem_stress, elem_strain", "element means", "micropp_t")], API + ["calc_ave_strain()"])

prop("C10", "Every element gets the material its position calls for",
 "With microstructure 0 an element is inclusion (second material) if and only if its centre lies strictly closer to the cell centre than the given radius; with microstructure 1 if and only if the y coordinate of its centre is strictly less than the given thickness; every other element is the first material. Each element then responds with exactly the parameters and the linear or plastic type given for its material, in 2D and 3D, for every grid and edge length.",
 ["configurations", "inputs"], "all grids, edge lengths, radii/thicknesses (including 0, larger than the cell, and ties), both microstructures and all material assignments",
 "the tests use one thickness and never read the element types",
 ["src/micro.cpp", "src/assembly.cpp"],
 [("centre test", "get_elem_type2D/3D()"), ("element numbering", "glo_elem3D"), ("type to material", "get_material()"), ("parameters to moduli", "constructor")],
 [("elem_type, material_list", "material of each element", "micropp_t")], API + ["micropp_materials.dat"])

prop("C11", "Sparse matrices equal the sum of the element matrices",
 "A matrix initialised for a structured 2D or 3D grid and set to zero represents the zero matrix; adding element matrices, in any order, makes it represent exactly the sum of those matrices scattered to the nodes of their elements; and the matrix-vector product is the product with that matrix. This holds for every grid size and number of fields per node, and adding or multiplying never touches another entry.",
 ["inputs", "configurations", "histories"], "all grids with at least 2 nodes per direction, 1 or more fields per node, all elements, all element matrices (also unsymmetric), all vectors",
 "the only ELL test is not built; the library tests see the matrices only through a solve in which all boundary rows are overwritten",
 ["src/ell.cpp", "include/ell.hpp"],
 [("column pattern", "ell_init_2D/3D()"), ("scatter", "ell_add_struct2D/3D()"), ("product", "ell_mvp_2D()"), ("reset", "ell_set_zero_mat()")],
 [("cols, vals", "fixed-width rows, 9 or 27 neighbour slots times fields", "ell_matrix")], ["ell_mvp_2D results"])

prop("C12", "Boundary conditions isolate the boundary unknowns",
 "After the boundary conditions are applied to an assembled grid matrix, every unknown on the boundary of the grid has an identity row and a column that is zero elsewhere, and the block coupling interior unknowns is unchanged; so a symmetric matrix stays symmetric. This holds for every grid size and number of fields, and applying the conditions twice equals applying them once.",
 ["configurations", "inputs"], "all 2D and 3D grids with at least 2 nodes per direction, all numbers of fields, all assembled matrices",
 "only the solution is visible to the tests, and with zero boundary increments wrong columns do not change it",
 ["src/ell.cpp"],
 [("rows and neighbouring columns", "ell_set_bc_2D/3D()")],
 [("vals", "matrix entries", "ell_matrix")], ["ell_mvp_2D results"])

prop("C13", "The linear solvers solve, stop and report truthfully",
 "On a symmetric positive definite grid system with boundary conditions applied, the conjugate-gradient solvers and the Jacobi solver either report an error below the requested tolerance, and then the returned vector's true residual norm is below it as well (up to rounding), or stop after exactly the allowed number of iterations; the iteration count never exceeds the limit. Conjugate gradients need at most about as many iterations as there are unknowns, a start vector that already solves the system is returned unchanged with zero iterations by conjugate gradients and still solves it after Jacobi, and matrix, right-hand side and request are never modified.",
 ["inputs", "configurations"], "all symmetric positive definite matrices assembled on structured grids, right-hand sides, start vectors, positive tolerances and limits of at least one iteration",
 "no built test calls a solver directly or checks residual, error or count",
 ["src/ell.cpp", "src/solve.cpp"],
 [("preconditioned conjugate gradients", "ell_solve_cgpd_2D(), ell_solve_cgpd_struct()"), ("Jacobi", "ell_solve_jacobi_2D()")],
 [("its, err", "reported outcome", "ell_solver")], ["solver->its, solver->err, x"])

prop("C14", "Newton iterations are bounded and reported truthfully",
 "Every equilibrium solve ends after at most 40 Newton iterations whatever the load, and the information file reports for each of the solves of a homogenization (stress, then one per tangent column) the number of iterations it made and its last residual norm: below 1e-5 unless the limit was reached. A cell that is in equilibrium from the start, or that is answered by the linear shortcut, reports zero iterations, and the elastic solve of a heterogeneous linear cell needs one.",
 ["inputs", "histories"], "all loads, also those for which the iteration does not converge, all cells and histories",
 "no test reads the iteration counts and all tested loads converge",
 ["src/solve.cpp", "src/homogenize.cpp", "src/output.cpp"],
 [("iteration loop", "newton_raphson()"), ("records", "homogenize(): nr_its, nr_err"), ("report", "write_info_files()")],
 [("nr_its, nr_err", "per-solve record", "gp_t")], ["micropp_convergence.dat"])

prop("C15", "A field snapshot describes exactly the requested Gauss point",
 "Writing a snapshot for a known Gauss point and step creates one file named after both: the grid points in order, one quad or hexahedron per element with its corner nodes, and per node and element the displacement, strain, stress, material type, mean plastic strain norm and mean hardening of that point at its current strain and committed history. Strain is the derivative of the displacement and stress the material response, for every grid, dimension and history; other snapshots and points are not mixed in.",
 ["inputs", "histories", "configurations"], "all grids and edge lengths, all Gauss points and steps, all histories before the snapshot",
 "the tests write snapshots and never read one",
 ["src/output.cpp", "src/assembly.cpp"],
 [("field computation", "output(), calc_fields()"), ("file", "write_vtu()")],
 [("elem_strain, elem_stress, u, vars_old", "what is written", "micropp_t")], ["micropp_<gp>_<step>.vtu"])

prop("C16", "Information files grow by one faithful record per write",
 "Construction empties the information files; each write appends exactly one record to each and never alters earlier ones, with the headers written once, before the first record. A record lists all Gauss points in order of introduction, each with its current flag, invariant, iteration counts and errors, strain, stress, tangent and committed internal variables (zeros while it has none); pending, not yet committed variables never appear.",
 ["histories"], "every history of calls with any number of writes at any point, any number of Gauss points, 2D and 3D",
 "the files are written by the tests but never read",
 ["src/output.cpp", "src/micro.cpp"],
 [("append", "write_info_files()"), ("truncate", "constructor")],
 [("output_files_header", "header already written", "micropp_t")], ["micropp_convergence.dat, micropp_eps_sig_ctan.dat, micropp_int_vars_n.dat"])

prop("C17", "The C/Fortran interface behaves exactly like the class",
 "Driving the library through the C/Fortran entry points gives, for every history, bit for bit the stresses, tangents, flags and files that the same history gives on an object of the class. Constructing again starts a fresh simulation that shows nothing of the previous one.",
 ["histories", "inputs"], "every history of interface calls, including repeated construction, 2D and 3D",
 "one Fortran test makes five calls and prints the result",
 ["src/wrapper.cpp"],
 [("forwarding to one global object", "micropp_*_()")],
 [("micro", "the current object", "wrapper.cpp")], API)

prop("C18", "Results are a function of the calls, not of memory or other objects",
 "Two objects constructed with the same arguments and driven by the same calls give bit for bit the same stresses, tangents, flags and snapshots, whatever the heap and stack contained before, whatever objects were created and destroyed earlier, and whatever other objects are used in between. Nothing printed or returned comes from uninitialised memory.",
 ["histories", "inputs"], "all histories, all contents of uninitialised memory, any number of objects used one after another or interleaved",
 "the tests use one object per process on fresh (zero) memory",
 ["src/micro.cpp", "src/homogenize.cpp", "src/assembly.cpp", "src/solve.cpp"],
 [("all state in the object, initialised at construction", "micropp_t::micropp_t(), set_macro_strain()")],
 [("u, vars_old, vars_new, gp_t fields", "must be set before use", "micropp_t")], API)

prop("C19", "Memory is released and never used out of bounds",
 "Destroying an object, or constructing anew through the C interface, returns every block the object acquired, and each block once; solvers return all their work memory. In between, only introducing a Gauss point or the first yielding of one may make the object hold more memory: any number of further homogenizations, updates, queries and outputs leaves the amount unchanged, and no call reads or writes outside the memory it owns.",
 ["histories", "configurations"], "every history and every grid with at least 2 nodes per direction",
 "the tests end without destroying most objects and nothing measures memory",
 ["src/micro.cpp", "src/homogenize.cpp", "src/ell.cpp", "src/wrapper.cpp"],
 [("acquisition in constructor and on first yield, release in destructor", "micropp_t, homogenize(), ell_init/ell_free, solvers")],
 [("int_vars_n, int_vars_k", "allocated on first yield", "gp_t")], ["allocation counts around each call, address checks"])

prop("C20", "Relabelling or mirroring the axes only relabels the results",
 "In 3D, exchanging coordinate axes (grid sizes, edge lengths and strain components together) permutes the components of stress and tangent accordingly and changes nothing else, for the spherical inclusion under all permutations and for the layered cell under exchange of x and z; in 2D the same holds for x and y with the circular inclusion. Mirroring an axis of a symmetric cell only flips the sign of the two shear components of that axis, also in plastic histories.",
 ["inputs", "configurations", "histories"], "all permutations and mirrorings, grids, edge lengths, strains and histories",
 "no test compares two runs, and loads act on one component of a cube",
 ["src/assembly.cpp", "src/ell.cpp", "src/homogenize.cpp", "src/micro.cpp"],
 [("no direction is privileged", "set_displ(), calc_bmat_3D(), assembly, ELL pattern, geometry")],
 [], API)

prop("C21", "Committed plastic states are admissible and in equilibrium",
 "In a heterogeneous plastic cell, after each converged and committed step every integration point satisfies the yield condition with its stored hardening, its plastic strain has grown only along the current deviatoric stress and by 1.5^0.5 times the growth of hardening, points that did not yield and elements of linear material kept their stored values (zero for linear material), and the stresses given by displacement and stored plastic strain are in force equilibrium at every interior node.",
 ["inputs", "histories"], "every heterogeneous 3D cell, every load path whose iterations converge, every step",
 "the tests do load a plastic layer but read neither fields nor internal variables",
 ["src/assembly.cpp", "src/homogenize.cpp", "src/solve.cpp"],
 [("return mapping inside Newton equilibrium", "plastic_step(), get_elem_rhs3D(), newton_raphson()"), ("storage layout per element, integration point, variable", "intvar_ix, update_vars()")],
 [("int_vars_n", "committed variables of all integration points", "gp_t")], ["micropp_int_vars_n.dat", "micropp_<gp>_<step>.vtu"])

prop("C22", "Energies: bounded by the phases, ordered, and never created",
 "For a linear cell, stress times strain (the energy) lies between the values that the harmonic and the arithmetic mean of the phases' bulk and shear moduli give, responses are reciprocal and superpose, making any element stiffer never lowers the energy and refining a grid whose elements keep their materials never raises it. In plastic cells, whatever was committed: between any two strains tried from the same committed state stress changes along with strain and by no more than the elastic cell's response, and along every committed path the work done covers the elastic energy of the current stress, so no cycle of loading and unloading gains energy.",
 ["inputs", "configurations", "histories"], "all grids, edge lengths, microstructures, moduli and strains; all pairs of trial strains and all committed paths whose iterations converge",
 "no test evaluates an energy or compares two cells or two strains; such inequalities hold for all inputs or mean nothing",
 ["src/assembly.cpp", "src/homogenize.cpp", "src/solve.cpp", "src/micro.cpp"],
 [("equilibrium is the energy minimum over the grid's displacements", "newton_raphson(), assembly_mat(), set_displ()"), ("return mapping is a projection", "plastic_step()"), ("volume averages", "calc_ave_stress()")],
 [("macro_stress, macro_ctan", "answers of a point", "gp_t")], API)

prop("C23", "Results do not depend on the units of length, stress and strain",
 "Multiplying all lengths (cell edges, inclusion radius or layer thickness) by a factor changes no stress, tangent, flag or stored history; multiplying all moduli, yield stresses, hardening moduli and the linearity threshold by a factor multiplies stress and tangent by it and changes nothing else; multiplying all strains together with yield stresses and threshold multiplies stress and stored history by it and leaves tangent and flag alone. Cells that are solved by iteration agree within the solvers' absolute tolerances.",
 ["inputs", "configurations", "histories"], "all cells, factors and histories; for cells with interior nodes as long as the iterations converge and the loads are large compared with the solvers' absolute tolerances",
 "the tests use unit cells and one set of moduli, and never compare two runs",
 ["src/micro.cpp", "src/assembly.cpp", "src/homogenize.cpp", "src/solve.cpp"],
 [("no constant with a unit other than the documented solver tolerances and the tangent's perturbation", "calc_bmat, get_elem_rhs, get_elem_type2D/3D, plastic_step(), is_linear()")],
 [], API)

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
