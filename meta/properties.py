I, H, CF = ["inputs"], ["histories"], ["configurations"]
T = "property-based testing"
NUM = "Random search only: a defect outside the generated sizes and value ranges, or smaller than the stated tolerances, is not seen. "

prop("C01", "Cartesian, tensor and layered grids describe exactly their box",
     "A 2D or 3D grid built from cell counts and spacings (uniform, tensor, or layered with a top surface, directly or through the grid manager) has exactly the cells, faces and nodes of that lattice, numbered with the first axis fastest. Every face lies between the two lattice neighbours it should separate, oriented towards increasing coordinate and tagged with its side, and cell-to-face and face-to-cell maps are inverse. Volumes, areas, normals and centroids equal those of the boxes.",
     I, "all cell counts and strictly increasing coordinates, all top surfaces",
     "The unit test builds one 4x4 grid and looks at a few entries; index arithmetic and geometry errors show only for unequal counts, unequal spacing, or 3D.",
     ["opm/core/grid/cart_grid.c", "opm/core/grid/grid.c", "opm/core/grid/GridManager.cpp", "opm/core/grid/cpgpreprocess/geometry.c"],
     [("lattice topology fill", "cart_grid.c fill_cart_topology_2d/3d"), ("box geometry", "cart_grid.c fill_cart_geometry_*"), ("array sizes", "grid.c allocate_grid")],
     (T + " against the lattice as reference model", NUM + "Up to ~350 cells, relative tolerance 1e-12 (1e-8 for relief)."))

prop("C02", "Corner-point grids conserve geometry across faults and gaps",
     "A grid processed from corner-point input has one cell for each active input cell of positive thickness, in input order, each with its logical index, and every cell is closed, has outward-consistent normals and exactly the volume of the input cell. Two cells share faces exactly when their input cells touch, with total contact area equal to the overlap of the input cells, across faults, offsets, pinched layers and inactive cells. The result does not depend on handedness or on the depth axis pointing up or down.",
     I, "all pillar grids: counts, pillar slopes, per-corner depths incl. faults and zero thickness, activity flags, tolerance",
     "Tests process a handful of small hand-made decks; the fault-intersection code branches on the relative order of four corner depths on both sides of a pillar pair.",
     ["opm/core/grid/cornerpoint_grid.c", "opm/core/grid/cpgpreprocess/preprocess.c", "opm/core/grid/cpgpreprocess/facetopology.c", "opm/core/grid/cpgpreprocess/uniquepoints.c", "opm/core/grid/cpgpreprocess/geometry.c"],
     [("unique points per pillar", "uniquepoints.c finduniquepoints"), ("fault face topology", "facetopology.c findconnections"), ("cell/face assembly, removal of inactive and collapsed cells", "preprocess.c process_grdecl")],
     (T + " against exact overlap integration", NUM + "Grids up to ~60 cells, plane cell tops per cell for the exact oracle."))

prop("C03", "Geometry of general polyhedral and polygonal cells is exact",
     "For any cell complex of convex cells whose faces are planar and convex, the computed face areas, face centroids, face normals, cell volumes and (in 3D) cell centroids equal the exact values of the polygons and polyhedra, each normal points from the face's first cell to its second, and results are covariant under translation, rotation, scaling and renumbering of nodes.",
     I, "all grids of convex polyhedra / polygons, incl. faces with 3 or more nodes, affine images and random node/face renumberings",
     "One unit test computes a single small fixed geometry.",
     ["opm/core/grid/cpgpreprocess/geometry.c", "opm/core/grid/cornerpoint_grid.c"],
     [("3D face and cell geometry", "geometry.c compute_face_geometry_3d, compute_cell_geometry_3d"), ("2D edge and cell geometry", "geometry.c compute_edge_geometry_2d, compute_cell_geometry_2d")],
     (T + ", exact and metamorphic oracles", NUM))

prop("C04", "Grids read from file or deck equal the grid that was described",
     "Reading a grid file reproduces every number of the described grid, with or without optional sections, and a truncated or unreadable file yields failure rather than a partial grid. A grid built from a deck's tensor or corner-point keywords equals the grid built directly from the same numbers, and inconsistent decks are rejected with an exception.",
     I + CF, "all grids, all truncation points, presence of the optional sections, tensor and corner-point decks incl. wrong sizes",
     "No existing test writes or truncates such a file; the deck path is exercised for one fixed deck.",
     ["opm/core/grid/grid.c", "opm/core/grid/GridManager.cpp", "opm/core/io/eclipse/EclipseGridParser.cpp"],
     [("file sections and their sizes", "grid.c read_grid"), ("deck front end", "GridManager.cpp")],
     (T + ", round trip and fault injection", NUM))

prop("C05", "Cell and face quadratures integrate polynomials exactly",
     "Quadrature over a convex cell or planar convex face of a grid that carries exact centroids, areas and volumes has positive weights summing to the cell volume or face area, points inside the cell or face, and integrates every polynomial up to the requested degree exactly.",
     I, "all cells and faces of 2D and 3D grids (axis-aligned and affine-distorted), degrees up to the supported maximum, all polynomials",
     "Tests check three fixed polynomials on one or two grids.",
     ["opm/core/grid/CellQuadrature.hpp", "opm/core/grid/FaceQuadrature.hpp"],
     [("subdivision into simplices", "CellQuadrature.hpp, FaceQuadrature.hpp")],
     (T + " against exact polynomial integration", NUM))

prop("C06", "Column extraction partitions the cells into vertical columns",
     "Extracting vertical columns from a grid with logical Cartesian indices puts every active cell in exactly one column, groups exactly the cells of equal horizontal index that are vertically connected, and orders each column from top to bottom.",
     I, "all logically Cartesian grids incl. inactive cells, gaps and pinched layers",
     "The unit test covers two fixed small decks.",
     ["opm/core/grid/ColumnExtract.hpp"],
     [("column building and splitting at gaps", "ColumnExtract.hpp extractColumn")],
     (T + " against a reference partition", NUM))

prop("C07", "Deck parsing keeps every value, unit and count; bad decks are rejected",
     "Parsing an input deck yields, for every supported keyword, exactly the values written, with repeat counts expanded, defaults filled in, comments ignored, includes followed and units converted to SI for metric and field decks; keywords and dates are reported as present exactly when written. A malformed or truncated deck, or one in a unit system that is not supported, ends in an exception, never in a crash or silent garbage.",
     I + CF, "all decks over the supported keywords: values, layout, repeat counts, comments, include files, unit systems; mutations and truncations",
     "Tests parse a few fixed decks and compare a few fields.",
     ["opm/core/io/eclipse/EclipseGridParser.cpp", "opm/core/io/eclipse/EclipseGridParserHelpers.hpp", "opm/core/io/eclipse/SpecialEclipseFields.hpp", "opm/core/io/eclipse/EclipseUnits.hpp", "opm/core/utility/Units.hpp"],
     [("keyword dispatch and storage", "EclipseGridParser.cpp readImpl"), ("vector/repeat reading", "EclipseGridParserHelpers.hpp readVectorData"), ("unit conversion", "EclipseGridParser.cpp convertToSI, SpecialEclipseFields.hpp")],
     (T + ": print/parse round trip, byte-level fuzzing", NUM))

prop("C08", "Parameters survive storage, lookup, XML files and the command line",
     "A parameter tree built from the command line, from nested parameter files or by insertion returns for every key exactly the last value given, the default only when absent, values of the requested type or an error, and writing it to a file and reading it back gives the same tree. Unused and misspelt keys are reported as unused, and malformed files or values raise an exception without crashing.",
     I + ["histories"], "all trees, key paths, value types, command lines, file contents and sequences of inserts and lookups",
     "Tests read one fixed file and one fixed command line.",
     ["opm/core/utility/parameters/ParameterGroup.cpp", "opm/core/utility/parameters/ParameterGroup_impl.hpp", "opm/core/utility/parameters/ParameterXML.cpp", "opm/core/utility/parameters/Parameter.cpp", "opm/core/utility/parameters/ParameterTools.cpp", "opm/core/utility/parameters/ParameterMapItem.hpp"],
     [("path splitting and nested groups", "ParameterGroup.cpp"), ("typed conversion", "Parameter.hpp"), ("XML reading and writing", "ParameterXML.cpp")],
     (T + ", model-based + round trip", NUM))

prop("C09", "Cutting a sub-box out of a corner-point deck keeps that part unchanged",
     "Cutting an index box (optionally with depth limits) out of a corner-point model keeps, for every cell that remains, its corner geometry, activity and properties, so that the processed cut-out grid has the same cells, volumes and properties as that part of the full grid. A deck whose fields do not fit its dimensions, or whose unit system is not supported, is refused.",
     I, "all corner-point models, index boxes and depth limits",
     "Nothing in the test suite cuts a model.",
     ["opm/core/io/eclipse/CornerpointChopper.hpp"],
     [("index arithmetic for pillars, corners and cells", "CornerpointChopper.hpp chop, filterIntegerField, filterDoubleField")],
     (T + ", differential against the uncut model", NUM))

prop("C10", "Piecewise linear tables reproduce, interpolate and extrapolate their data",
     "A table with uniform or arbitrary increasing arguments reproduces its values at the nodes, is linear between them with matching slope, has the documented behaviour outside its range (closest value for uniform, linear extrapolation for other tables), follows a rescaled domain, and inverse lookup of a strictly monotone table returns the argument that gives the value; tables with decreasing arguments, empty intervals or fewer than two uniform values are refused.",
     I, "all tables and arguments",
     "Tests evaluate one table at a few points.",
     ["opm/core/utility/NonuniformTableLinear.hpp", "opm/core/utility/UniformTableLinear.hpp", "opm/core/utility/linearInterpolation.hpp", "opm/core/utility/buildUniformMonotoneTable.hpp"],
     [("interval search and interpolation", "linearInterpolation.hpp"), ("range policies", "UniformTableLinear.hpp")],
     (T + " against a direct piecewise linear model", NUM))

prop("C11", "Monotone cubic interpolation is faithful, smooth and monotone",
     "The cubic interpolator passes through its data, is continuous with continuous first derivative equal to its reported derivative, is monotone wherever the data are, is constant outside the range, and its monotonicity queries, minima, maxima and edits (adding pairs, scaling, chopping flat ends, shrinking flat areas, reading from file) agree with the data they hold.",
     I + H, "all data sets, arguments and sequences of edits",
     "No test covers this class.",
     ["opm/core/utility/MonotCubicInterpolator.cpp", "opm/core/utility/MonotCubicInterpolator.hpp"],
     [("derivative limiting", "MonotCubicInterpolator.cpp computeInternalFunctionData, adjustDerivativesForMonotoneness"), ("Hermite evaluation", "evaluate")],
     (T + ", model-based", NUM))

prop("C12", "Bracketing root finders return a root inside the bracket or report failure",
     "For every continuous function with a sign change over the given interval, each root finder returns a point of that interval at which the function is within the requested tolerance of zero (or that is as close to a sign change as floating point allows), reporting the iterations it used, no more than allowed, and calling the function only inside the interval; without a sign change or when iterations run out the chosen error policy is followed.",
     I + CF, "all continuous functions with a sign change, initial guesses, tolerances, iteration limits and error policies",
     "Tests do not call the root finders on their own.",
     ["opm/core/utility/RootFinders.hpp"],
     [("regula falsi with modified weights", "RootFinders.hpp RegulaFalsi::solve"), ("error policies", "RootFinders.hpp ThrowOnError, WarnAndContinueOnError, ContinueOnError")],
     (T + " with recorded function calls", NUM))

prop("C13", "Sparse table and sparse vector behave as the containers they model",
     "A table of rows of varying length and a sparse vector give back exactly the rows and elements stored, under every sequence of construction, appending, assignment, swapping, clearing and access, and report sizes and emptiness accordingly.",
     I + H, "all contents and operation sequences",
     "Tests check a few fixed tables.",
     ["opm/core/utility/SparseTable.hpp", "opm/core/utility/SparseVector.hpp"],
     [("row offsets", "SparseTable.hpp"), ("sorted index list", "SparseVector.hpp")],
     (T + ", model-based (vector of vectors, map)", NUM))

prop("C14", "Velocity reconstruction from face fluxes is exact for linear fields",
     "Interpolating a velocity from face fluxes reproduces every constant field exactly everywhere in every cell, the extended interpolation reproduces the given flux on every face in the mean, and generalised barycentric coordinates are non-negative inside the cell, sum to one and reproduce the point.",
     I, "all convex cells of 2D and 3D grids, all constant velocity fields, all points in a cell",
     "Tests check a single fixed field on one or two small grids.",
     ["opm/core/utility/VelocityInterpolation.cpp", "opm/core/utility/WachspressCoord.cpp"],
     [("constant interpolation", "VelocityInterpolation.cpp VelocityInterpolationConstant"), ("corner velocities", "VelocityInterpolation.cpp VelocityInterpolationECVI"), ("barycentric coordinates", "WachspressCoord.cpp")],
     (T + " with exactness oracles", NUM))

prop("C15", "Sparse systems are assembled and solved as written",
     "Building a sparse matrix by counting, pushing and sorting neighbours yields exactly the given sparsity in sorted order, zeroing keeps that structure, and writing it out states every entry exactly; solving a nonsingular sparse system through the direct solver or the configured front end returns a solution with residual at rounding level, leaving the input unchanged.",
     I, "all sparsity patterns, values and right-hand sides of nonsingular systems",
     "Tests solve one small fixed system.",
     ["opm/core/linalg/sparse_sys.c", "opm/core/linalg/call_umfpack.c", "opm/core/linalg/LinearSolverUmfpack.cpp", "opm/core/linalg/LinearSolverFactory.cpp"],
     [("CSR construction", "sparse_sys.c csrmatrix_*"), ("CSR to CSC and solve", "call_umfpack.c call_UMFPACK")],
     (T + ", residual and model oracles", NUM))

prop("C16", "Incompressible two-point pressure solve conserves mass and obeys Darcy",
     "For every grid, permeability, mobility, gravity and set of sources, boundary conditions and wells, the incompressible pressure solution has face fluxes whose sum over each cell equals its source plus perforation rates, fluxes equal to transmissibility times potential difference, boundary fluxes and pressures as prescribed, rate-controlled wells injecting their target and pressure-controlled wells at their target. Shifting all pressures or rescaling mobilities changes the solution as the equations demand.",
     I + CF, "all grids, permeability tensors, mobilities, gravity vectors, sources, boundary conditions and well configurations",
     "Examples and tests run fixed uniform cases without wells.",
     ["opm/core/pressure/IncompTpfa.cpp", "opm/core/pressure/tpfa/ifs_tpfa.c", "opm/core/pressure/tpfa/trans_tpfa.c", "opm/core/pressure/flow_bc.c"],
     [("one-sided transmissibilities", "trans_tpfa.c"), ("assembly of cells, boundary, wells", "ifs_tpfa.c ifs_tpfa_assemble"), ("flux reconstruction", "ifs_tpfa.c ifs_tpfa_press_flux")],
     (T + ": invariants on the discrete solution, exact linear fields", NUM))

prop("C17", "Incompressible solve with compressible rock keeps the mass balance",
     "With rock compressibility the converged pressure solution satisfies, in every cell, outflow plus growth of pore volume over the step equal to sources and well inflow, with pore volume following the rock law, and reduces to the incompressible solution when the compressibility vanishes.",
     I + CF, "all grids, rock compressibilities, time steps, initial pressures, sources and wells",
     "No test runs this case.",
     ["opm/core/pressure/IncompTpfa.cpp", "opm/core/pressure/tpfa/ifs_tpfa.c", "opm/core/props/rock/RockCompressibility.cpp"],
     [("nonlinear iteration", "IncompTpfa.cpp solveRockComp"), ("accumulation term", "ifs_tpfa.c ifs_tpfa_assemble_comprock*")],
     (T + ": residual recomputed from the solution", NUM))

prop("C18", "Compressible two-point pressure solve balances volume in every cell",
     "The converged solution of the compressible black-oil pressure equation has, in every cell, total volume discrepancy, flow and source terms in balance, face fluxes and perforation rates following Darcy's law with upwinded mobilities at the converged pressures, wells at their rate or pressure targets, and boundary faces without flow; its Jacobian is the derivative of its residual.",
     I + CF, "all grids, fluid properties, states, time steps, gravity and well configurations",
     "No test solves a compressible pressure equation.",
     ["opm/core/pressure/CompressibleTpfa.cpp", "opm/core/pressure/tpfa/cfs_tpfa_residual.c", "opm/core/pressure/tpfa/compr_quant_general.c"],
     [("residual and Jacobian", "cfs_tpfa_residual.c"), ("Newton iteration", "CompressibleTpfa.cpp solve")],
     (T + ": independent residual evaluation", NUM))

prop("C19", "Mimetic and hybrid pressure solvers are exact for linear pressure",
     "The mimetic inner product is symmetric positive definite and consistent for linear fields on every cell, the hybrid solvers built on it reproduce linear pressure fields and constant velocity exactly on any grid with constant permeability, and conserve mass in every cell for every source, boundary and well setting.",
     I + CF, "all polyhedral cells and grids, full permeability tensors, boundary conditions, sources and wells",
     "Nothing in the test suite runs these solvers.",
     ["opm/core/pressure/mimetic/mimetic.c", "opm/core/pressure/mimetic/hybsys.c", "opm/core/pressure/mimetic/hybsys_global.c", "opm/core/pressure/ifsh.c", "opm/core/pressure/fsh_common_impl.c", "opm/core/pressure/cfsh.c"],
     [("inverse inner product", "mimetic.c mim_ip_simple"), ("Schur complement", "hybsys.c"), ("global system", "hybsys_global.c"), ("driver", "ifsh.c")],
     (T + ": patch test, conservation, linear algebra reference", NUM))

prop("C20", "Grid partitioning and coarse topology are consistent with the fine grid",
     "Partitioning puts each cell in the block its logical index says, compressing and inverting partitions keep exactly the same groups, disconnected blocks are split into connected components only, and the coarse grid derived from a partition has a face between two blocks exactly where fine cells of the two meet, listing exactly those fine faces.",
     I, "all logical sizes, block counts, partitions and fine neighbourships",
     "No test covers the multiscale tools.",
     ["opm/core/pressure/msmfem/partition.c", "opm/core/pressure/msmfem/coarse_conn.c", "opm/core/pressure/msmfem/hash_set.c", "opm/core/pressure/msmfem/dfs.c"],
     [("partition arithmetic", "partition.c"), ("coarse faces", "coarse_conn.c coarse_topology_create"), ("hash set", "hash_set.c"), ("component search", "dfs.c")],
     (T + " against set-based reference models", NUM))

prop("C21", "Boundary-condition and source containers return what was put in",
     "Every container of boundary conditions, compressible sources and transport sources reports exactly the entries appended, in order, through any sequence of appends and clears of any length, and boundary conditions for a side of a logically Cartesian grid select exactly the boundary faces of that side, with pressure or total flux as prescribed.",
     I + H, "all append/clear sequences, all sides and index ranges of all grids",
     "Tests append at most a few entries.",
     ["opm/core/pressure/flow_bc.c", "opm/core/pressure/FlowBCManager.cpp", "opm/core/pressure/tpfa/compr_bc.c", "opm/core/pressure/tpfa/compr_source.c", "opm/core/transport/implicit/transport_source.c"],
     [("growing arrays", "flow_bc.c, compr_bc.c, compr_source.c, transport_source.c"), ("side selection", "FlowBCManager.cpp")],
     (T + ", model-based", NUM))

prop("C22", "Transport ordering is a topological order of the flow's components",
     "For every flux field the computed sequence visits every cell exactly once, groups cells into exactly the strongly connected components of the flow graph, and places every component after all components upstream of it; the component search itself is right for every directed graph.",
     I, "all directed graphs, all grids and flux fields incl. zero fluxes and cycles",
     "No test looks at the ordering.",
     ["opm/core/transport/reorder/reordersequence.cpp", "opm/core/transport/reorder/tarjan.c"],
     [("upwind graph", "reordersequence.cpp"), ("component search", "tarjan.c tarjan")],
     (T + " against a reachability reference", NUM))

prop("C23", "Two-phase transport conserves mass and keeps saturations in bounds",
     "One implicit transport step on any flow field satisfies the discrete conservation law in every cell to tolerance for either phase, keeps saturations between 0 and 1, leaves the total amount in balance with inflow and outflow, keeps equilibrium states unchanged and does not depend on the numbering of cells.",
     I, "all grids, divergence-free flux fields incl. circulation, sources, porosities, relative permeability curves, initial states and steps",
     "No test runs this solver.",
     ["opm/core/transport/reorder/TransportSolverTwophaseReorder.cpp", "opm/core/transport/reorder/ReorderSolverInterface.cpp", "opm/core/utility/RootFinders.hpp"],
     [("single-cell residual", "TransportSolverTwophaseReorder.cpp"), ("multi-cell iteration", "TransportSolverTwophaseReorder.cpp solveMultiCell")],
     (T + ": residual recomputed from the result", NUM))

prop("C24", "Gravity segregation conserves volume and settles the heavier phase",
     "A gravity segregation step in vertical columns conserves the volume of each phase in each column, keeps saturations in bounds, satisfies the implicit column equations, leaves segregated columns unchanged, and never moves the heavier phase upwards in the mean.",
     I, "all columns, density differences, saturations, porosities, curves and steps",
     "No test runs segregation.",
     ["opm/core/transport/reorder/TransportSolverTwophaseReorder.cpp", "opm/core/transport/implicit/GravityColumnSolver_impl.hpp", "opm/core/transport/reorder/TransportSolverCompressibleTwophaseReorder.cpp"],
     [("column sweep", "TransportSolverTwophaseReorder.cpp solveGravityColumn"), ("tridiagonal Newton", "GravityColumnSolver_impl.hpp")],
     (T + ": column balance and residual", NUM))

prop("C25", "Implicit upwind transport converges to the implicit equations",
     "The Newton-based single-point upwind transport solver returns a state satisfying the implicit upwind equations to the requested tolerance with or without gravity, conserves the total volume of each phase against sources and boundary flow, keeps saturations in bounds, and its assembled Jacobian is the derivative of its residual.",
     I + CF, "all grids, fluxes, sources, gravity, fluids, steps and initial states",
     "No test runs this solver.",
     ["opm/core/transport/implicit/TransportSolverTwophaseImplicit.cpp", "opm/core/transport/implicit/SinglePointUpwindTwoPhase.hpp", "opm/core/transport/implicit/ImplicitAssembly.hpp", "opm/core/transport/implicit/ImplicitTransport.hpp", "opm/core/transport/implicit/JacobianSystem.hpp", "opm/core/transport/implicit/CSRMatrixBlockAssembler.hpp", "opm/core/transport/minimal/spu_implicit.c"],
     [("upwind residual", "SinglePointUpwindTwoPhase.hpp"), ("Newton", "ImplicitTransport.hpp")],
     (T + ": residual and finite-difference oracles", NUM))

prop("C26", "Explicit upwind transport advances exactly the upwind scheme",
     "One explicit upwind step changes each cell's saturation (the routine works per unit of pore volume) by exactly the time step times the net inflow of the first phase including sources, each phase's mobility being taken from the cell that phase flows out of, whatever the signs and zeros of total and gravity flux; it conserves total volume to rounding and keeps saturations in [0,1] for steps below the stability limit.",
     I, "all grids, fluxes, gravity, sources, mobilities and steps",
     "No test runs this solver.",
     ["opm/core/transport/minimal/spu_explicit.c"],
     [("upwind update", "spu_explicit.c")],
     (T + " against a direct formula", NUM))

prop("C27", "Compressible two-phase transport conserves each component's mass",
     "A compressible transport step satisfies in every cell the discrete balance of surface volume for the old and new pressures and pore volumes, keeps saturations in bounds, reports consistent surface volumes, and agrees with the incompressible step when nothing is compressible.",
     I, "all grids, flow fields, formation volume factors, pore volume changes, sources and steps",
     "No test runs this solver.",
     ["opm/core/transport/reorder/TransportSolverCompressibleTwophaseReorder.cpp", "opm/core/transport/reorder/ReorderSolverInterface.cpp"],
     [("single-cell residual", "TransportSolverCompressibleTwophaseReorder.cpp")],
     (T + ": residual recomputed, differential", NUM))

prop("C28", "Time of flight and tracers satisfy their upwind balance",
     "First-order time of flight satisfies, in each cell that is not on a closed circulation, pore volume plus inflow-weighted upstream values equal to outflow times its own value, and is never negative; tracers are one in their own source cell and zero in the others, lie in [0,1], satisfy the same balance elsewhere and sum to one wherever all inflow stems from sources; the multidimensional upwind variant satisfies the balance of its face values and is finite and non-negative wherever there is flow.",
     I, "all grids, flux fields with sources and sinks (incl. circulation), pore volumes and tracer sets",
     "Only an example program runs this solver.",
     ["opm/core/tof/TofReorder.cpp", "opm/core/transport/reorder/ReorderSolverInterface.cpp"],
     [("single-cell solve", "TofReorder.cpp solveSingleCell"), ("strongly connected cells", "TofReorder.cpp solveMultiCell")],
     (T + ": linear balance recomputed", NUM))

prop("C29", "Discontinuous Galerkin time of flight reproduces its polynomial space",
     "The polynomial bases have the stated dimension, span the stated space, their gradients are the derivatives of their values, and the discontinuous Galerkin time of flight satisfies the weak form, has the first-order balance at degree zero and reproduces linear time of flight for constant velocity; limiters preserve cell averages and bounds.",
     I + CF, "all grids, degrees, basis kinds, constant and general flux fields, limiter settings",
     "Only the basis is tested, at a few points.",
     ["opm/core/tof/DGBasis.cpp", "opm/core/tof/TofDiscGalReorder.cpp"],
     [("bases", "DGBasis.cpp"), ("cell solve and limiters", "TofDiscGalReorder.cpp")],
     (T + ": weak form and exactness", NUM))

prop("C30", "Fluid property tables give consistent volumes, viscosities and derivatives",
     "For every pressure and composition within the tables, formation volume factors, viscosities and dissolution ratios reproduce the table at its entries and interpolate monotonically between them, reported derivatives are the derivatives of the reported values, the phase-to-component matrix is the inverse relation of volumes to surface volumes, and densities are surface densities times that matrix.",
     I + CF, "all tables (constant, dead, spline, live oil, live gas), pressures, compositions and phase combinations",
     "Tests compare a few values of one fixed deck.",
     ["opm/core/props/pvt/SinglePvtDead.cpp", "opm/core/props/pvt/SinglePvtDeadSpline.cpp", "opm/core/props/pvt/SinglePvtLiveOil.cpp", "opm/core/props/pvt/SinglePvtLiveGas.cpp", "opm/core/props/pvt/SinglePvtConstCompr.hpp", "opm/core/props/pvt/BlackoilPvtProperties.cpp", "opm/core/props/BlackoilPropertiesFromDeck.cpp", "opm/core/props/BlackoilPropertiesBasic.cpp", "opm/core/props/pvt/PvtPropertiesBasic.cpp", "opm/core/props/pvt/PvtPropertiesIncompFromDeck.cpp"],
     [("per-phase tables", "SinglePvt*.cpp"), ("matrix and density assembly", "BlackoilPropertiesFromDeck.cpp matrix, density")],
     (T + ": table, derivative and inverse oracles", NUM))

prop("C31", "Relative permeability and capillary pressure follow their tables",
     "For every saturation in range, relative permeabilities and capillary pressures equal the table values at entries and interpolate between them, lie in [0,1] and are monotone when the tables are, end-point scaling maps end points onto table end points, three-phase models reduce to the two-phase tables in their limits, and reported derivatives are the derivatives of the values; unusable tables, region numbers and cell fields with too few values are refused.",
     I + CF, "all saturation tables, saturations, three-phase models, regions and scaling parameters",
     "Tests compare a few points of fixed decks.",
     ["opm/core/props/satfunc/SatFuncSimple.cpp", "opm/core/props/satfunc/SatFuncStone2.cpp", "opm/core/props/satfunc/SatFuncGwseg.cpp", "opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp", "opm/core/props/satfunc/SaturationPropsBasic.cpp"],
     [("table evaluation", "SatFunc*.cpp evalKr, evalPc"), ("region lookup and scaling", "SaturationPropsFromDeck_impl.hpp")],
     (T + " against a reference evaluation", NUM))

prop("C32", "Rock properties land in the right cell with the right value",
     "Porosity and permeability read from a deck end up in the cell with that logical index whatever cells are inactive, as a symmetric tensor with exactly the given components and missing components filled in by the documented rule, inadmissible component sets and fields with too few values for the grid are rejected, and pore volume multipliers and compressibilities follow the rock table (compressibility the relative slope of the table) or the quadratic law of the stated constant compressibility.",
     I + CF, "all active-cell maps, component combinations, values and rock tables",
     "Tests check permeability combinations on one cell.",
     ["opm/core/props/rock/RockFromDeck.cpp", "opm/core/props/rock/RockCompressibility.cpp", "opm/core/props/rock/RockBasic.cpp"],
     [("tensor assembly", "RockFromDeck.cpp fillTensor, assignPermeability"), ("rock law", "RockCompressibility.cpp")],
     (T + " against a reference", NUM))

prop("C33", "The well container returns exactly the wells and controls put in",
     "Through every sequence of adding wells, appending and clearing controls and selecting the current control, the well container reports exactly the wells, perforations, names, controls and targets given, in order, and cloning and equality behave as copy and comparison.",
     I + H, "all operation sequences",
     "Tests exercise two wells with two controls.",
     ["opm/core/wells/wells.c"],
     [("growing arrays", "wells.c wells_reserve, well_controls_reserve"), ("append and clear", "wells.c")],
     (T + ", model-based (stateful)", NUM))

prop("C34", "Wells built from a deck have the completions, indices and limits it states",
     "Wells read from a deck are perforated in exactly the active cells of their completions, with well indices given or computed by the standard formula, controls with the stated targets and the stated active mode, and group targets distributed and limits enforced as the deck's guide rates and group tree say; invalid references are rejected.",
     I + CF, "all well, completion, control and group specifications over all grids",
     "No test reads wells from a deck.",
     ["opm/core/wells/WellsManager.cpp", "opm/core/wells/WellsGroup.cpp", "opm/core/wells/WellCollection.cpp"],
     [("completion lookup and well index", "WellsManager.cpp"), ("group tree and rate sharing", "WellsGroup.cpp")],
     (T + " against a reference interpretation", NUM))

prop("C35", "The simulation clock visits exactly the requested steps",
     "The timer's time after n steps is the sum of the first n step lengths, its dates follow the calendar from the start date, it is done exactly after the last step, and steps from a deck are those of its time-step and date keywords in order. A stop watch reports the time it has been running since its start and since it was last read, and refuses to be stopped or read before it was started.",
     I + H, "all step lists, parameters, decks with time-step and date keywords, advance sequences",
     "Tests advance one fixed schedule.",
     ["opm/core/simulator/SimulatorTimer.cpp", "opm/core/io/eclipse/EclipseGridParser.cpp", "opm/core/utility/StopWatch.cpp"],
     [("stop watch", "StopWatch.cpp"), ("step accumulation", "SimulatorTimer.cpp"), ("epochs", "EclipseGridParser.cpp setCurrentEpoch")],
     (T + ", model-based", NUM))

prop("C36", "Initial states are in equilibrium and have the requested saturations",
     "Initialising a reservoir state gives each cell the saturations its side of the contact or the parameters require, pressures in hydrostatic equilibrium with the given datum, faces pressures consistent with cells, saturations summing to one, and surface volumes consistent with pressure and saturation; a well starts at its bottom hole pressure target if it is controlled on it, at the pressure of its first perforation otherwise; a deck without enough information for a state (a keyword missing or with too few values), or with another phase system than the fluid's, is an error.",
     I + CF, "all grids, contacts, densities, datum pressures, parameter sets and decks",
     "Examples only run fixed settings.",
     ["opm/core/simulator/initState_impl.hpp", "opm/core/simulator/initState.hpp", "opm/core/simulator/TwophaseState.hpp", "opm/core/simulator/BlackoilState.hpp", "opm/core/simulator/WellState.hpp"],
     [("contact segregation", "initState_impl.hpp initWaterOilContact"), ("hydrostatics", "initState_impl.hpp initHydrostaticPressure")],
     (T + " against analytic hydrostatics", NUM))

prop("C37", "A complete two-phase simulation conserves what is in place",
     "Over every schedule of steps a simulation is the sequence of its pressure and transport solves: each transported phase is conserved (what is in place at the end equals what was there plus injected minus produced), saturations stay in bounds, every active well control holds its target and no limit is exceeded when limits are checked, restarting between steps changes nothing, and the printed and written summaries agree with the state and the clock.",
     H + CF, "all grids, fluids, well settings, step schedules and solver parameters",
     "No test runs a simulation.",
     ["opm/core/simulator/SimulatorIncompTwophase.cpp", "opm/core/simulator/SimulatorCompressibleTwophase.cpp", "opm/core/simulator/WellState.hpp", "opm/core/simulator/SimulatorReport.cpp"],
     [("pressure/transport loop", "SimulatorIncompTwophase.cpp, SimulatorCompressibleTwophase.cpp")],
     (T + ": mass balance over the history", NUM))

prop("C38", "Reporting utilities compute the balances they are named for",
     "Pore volumes, saturated volumes, average saturations, injected and produced totals, total mobility and density, phase fluxes and velocities, transport source terms and well reports equal their defining sums for every state, well configuration and grid.",
     I, "all grids, states, fluids and well configurations",
     "Tests do not call them.",
     ["opm/core/utility/miscUtilities.cpp", "opm/core/utility/miscUtilitiesBlackoil.cpp"],
     [("sums over cells, faces and perforations", "miscUtilities.cpp, miscUtilitiesBlackoil.cpp")],
     (T + " against direct sums", NUM))

prop("C39", "Visualisation and grid output describes the given grid and data",
     "The written visualisation file is well formed and contains exactly the grid's points, cells, connectivity and the given cell fields in order, and grids read in or converted through the vertex-oriented format keep their topology.",
     I, "all grids and fields",
     "No test reads back the output.",
     ["opm/core/io/vtk/writeVtkData.cpp", "opm/core/io/vag/vag.cpp", "opm/core/utility/DataMap.hpp"],
     [("XML writing", "writeVtkData.cpp"), ("vag reading and conversion", "vag.cpp")],
     (T + ", write/read round trip", NUM))

prop("C40", "Questions about a corner-point deck are answered from its numbers",
     "For a deck giving COORD, ZCORN and its size (by SPECGRID or DIMENS), the inspector reports that size, the cells' logical coordinates with the first index running fastest, the corner depths, outer limits, volumes of vertical-pillar cells and mean dips that follow from the deck's numbers; incomplete decks, fields of the wrong length and cells outside the grid are errors.",
     I, "all corner-point decks, unit systems and cell indices",
     "No test uses the inspector.",
     ["opm/core/io/eclipse/EclipseGridInspector.cpp"],
     [("queries", "EclipseGridInspector.cpp")],
     (T + " against the generated deck's numbers", NUM))

prop("C41", "The multiscale solver gives conservative fluxes of its basis functions",
     "For every connected partition the multiscale mixed solver's fluxes are the combination of its local unit-flow solutions that minimises the energy under block-wise conservation: they balance the sources in every cell (of the sources it was built with; in every block for any others), nothing crosses the outer boundary, block pressures match, and with one cell per block or whatever the mobilities the solution is that of the fine system it stands for.",
     CF, "all grids, partitions into connected blocks, permeabilities, mobilities and balanced sources, several solves per object",
     "Tests do not run the multiscale solver.",
     ["opm/core/pressure/msmfem/ifsh_ms.c", "opm/core/pressure/msmfem/coarse_sys.c", "opm/core/pressure/msmfem/coarse_conn.c"],
     [("basis functions and coarse inner products", "coarse_sys.c"), ("coarse system and fine fluxes", "ifsh_ms.c")],
     (T + " against a reference mixed multiscale solver", NUM))
prop("C42", "The legacy compressible TPFA solver solves its own balance equations",
     "Pressures and rates of the self-contained compressible two-point solver (cfs_tpfa) satisfy the volume balance of every cell and every well's control, its face and perforation fluxes are two-point fluxes of those pressures with mobilities, volume matrices, gravity and boundary pressures as given, face pressures are the transmissibility-weighted averages, explicit transport conserves every component's surface volume, and the largest stable step is Coats'.",
     CF, "all grids, one to three phases, volume matrices, mobilities, gravity terms, wells (pressure or rate), pressure boundaries, compressible or not, several solves per object",
     "Tests do not run this solver.",
     ["opm/core/pressure/tpfa/cfs_tpfa.c", "opm/core/pressure/tpfa/compr_quant.c", "opm/core/pressure/tpfa/trans_tpfa.c"],
     [("assembly, back-substitution, explicit transport", "cfs_tpfa.c"), ("compressibility terms per cell and face", "compr_quant.c")],
     (T + " against the equations evaluated in extended precision", NUM))

prop("C43", "A property object answers as the parts it is made of, point by point",
     "An object of fluid and rock properties built from a deck or from parameters reports, in every cell of its grid, the porosity and permeability, phases, densities, viscosities, phase matrices and saturation functions that the separately built rock, fluid-table and saturation parts give for the same input, with documented defaults and units; a request for many points gives each what a request for it alone gives, independent of order, repetition and whether derivatives are wanted; unusable inputs (unknown three-phase model, missing oil, gas in incompressible decks, too few tables) are refused.",
     I + CF, "all decks, phase combinations, saturation regions, inactive cells, parameters and batches of points",
     "Tests build at most one such object from one deck and never compare it with its parts.",
     ["opm/core/props/BlackoilPropertiesFromDeck.cpp", "opm/core/props/IncompPropertiesFromDeck.cpp", "opm/core/props/BlackoilPropertiesBasic.cpp", "opm/core/props/IncompPropertiesBasic.cpp", "opm/core/props/phaseUsageFromDeck.hpp", "opm/core/props/satfunc/SaturationPropsBasic.cpp", "opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp"],
     [("choice of parts and forwarding", "*PropertiesFromDeck.cpp, *PropertiesBasic.cpp"), ("phases in use", "phaseUsageFromDeck.hpp")],
     (T + ": differential against separately built parts, metamorphic over batches", NUM))

prop("C44", "Storage: a shortage of memory is reported and everything is given back",
     "A constructor of the C interface that cannot get the memory it needs returns NULL (or its documented error), leaves what it was given unchanged, releases what it had obtained, and touches no indeterminate memory; an insertion into a container that cannot grow is reported and changes nothing, and the container works on afterwards; destroying an object releases everything it held. No call of the library keeps memory that its objects' destruction does not release, also when it throws: repeating the same work does not make the process grow.",
     "A shortage of memory at an arbitrary request must not turn into corruption or a crash later, and programs that build solvers, grids and wells repeatedly must not run out of memory. ", "all constructors, every single request and every suffix of requests refused, histories of insertions, whole-library workloads",
     "Tests never refuse memory and look at no balance of it.",
     ["opm/core/wells/wells.c", "opm/core/grid/grid.c", "opm/core/grid/cart_grid.c", "opm/core/linalg/sparse_sys.c", "opm/core/pressure/flow_bc.c", "opm/core/pressure/fsh_common_impl.c", "opm/core/pressure/mimetic/hybsys.c", "opm/core/pressure/mimetic/hybsys_global.c", "opm/core/pressure/msmfem", "opm/core/pressure/tpfa", "opm/core/transport/implicit/transport_source.c", "opm/core/wells/WellsManager.cpp"],
     [("allocation, growth and release", "wells.c, grid.c, sparse_sys.c, flow_bc.c, compr_source.c, compr_bc.c, transport_source.c, hash_set.c"), ("construction of solver data", "ifs_tpfa.c, cfs_tpfa.c, cfs_tpfa_residual.c, ifsh.c, cfsh.c, hybsys.c, coarse_sys.c, ifsh_ms.c")],
     (T + ": fault injection at every allocation, memory balance of repeated cases", NUM))
