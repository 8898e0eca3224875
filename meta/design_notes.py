note("C01", "closed forms per node, face and cell of the box; relief by exact integration of the triangulated column", "the tests build one grid of fixed size")
note("C02", "an independent reference of the faulted geometry in exact rational-like arithmetic (plane tops, parallel pillars): per pair of cells the area of their contact, per cell its volume and centroid; closedness, orientation and total volume for curved grids", "defects need a particular fault throw, pinch or activity pattern",
     "processing tolerance is covered by its own sub-check (layers thinner and thicker than it).")
note("C03", "exact volume, area and centroid of convex complexes built by cutting a box with planes, under affine maps", "fixed regular cells hide wrong weights")
note("C04", "round trip of the written file; token damage must be reported or leave an equal grid; decks against the described nodes", "parsers fail on particular damage positions",
     "POISSONMOD-like keywords of more than eight characters are a property of the format: no such keyword is generated (early false alarm).")
note("C05", "exact simplex integration of all monomials up to the degree", "the tests use one cell")
note("C06", "columns recomputed from logical indices and vertical contacts", "broken columns need inactive cells in particular places")
note("C07", "a model of the deck: every value of every keyword in SI units and every epoch; rejected decks must throw; mutated decks must return or throw under sanitizers", "the space of spellings (defaults, repeats, comments, includes, units) is unbounded",
     "TSTEP is copied into each new epoch and appended to, so the last epoch's TSTEP holds all steps (by design, pinned in C35).", "LAB and PVT-M units throw and are not generated.")
note("C08", "a tree model of the parameter group; usage reports and files are compared with it", "lookups depend on the history of inserts and reads",
     "numbers followed by text are accepted either way; `has` below a parameter throws bad_cast and counts as absent; `get` falls back to enclosing groups.", "a \"./\" path inside XML values was a false alarm of the generator.")
note("C09", "every corner of every kept cell in space and every property, from the model the deck was printed from", "errors show only for inclined pillars, gaps and partial boxes",
     "limits that fall in a gap between layers give an empty cut (accepted); volumes are compared only where no limit cuts through a cell surface.")
note("C10", "direct long double evaluation of table, slope and inverse", "end intervals and nodes' floating point neighbours are missed by sampled tests")
note("C11", "Hermite cubic from the reported derivatives, sign of its derivative over each interval in closed form", "monotonicity must hold for all data sets and edit histories",
     "fewer than two points are not asked about monotonicity.")
note("C12", "recorded function calls; the result must lie in a bracket with a sign change of the stated width or the policy's failure report", "convergence depends on the function family",
     "machine-epsilon tolerances with rounded functions were a false alarm of the iteration bound; tolerance is at least 1e-14 relative.")
note("C13", "vector of vectors and map models after each operation", "histories")
note("C14", "constant fields are reproduced at every point; arbitrary fluxes are reproduced on faces; barycentric coordinates are a partition of unity", "cells must be skewed to expose errors",
     "cells whose geometry is known to worse than 1e-5 are skipped.")
note("C15", "dense model of the matrix; solutions by residual and by a dense long double solve", "orderings of pushed entries")
note("C16", "mass balance per cell, two-point flux of the reported pressures, well equations, boundary conditions, all in long double", "needs interplay of wells, gravity, boundary conditions and repeated solves",
     "ill conditioned half transmissibilities enlarge the tolerance; worst ratios above 1e8 are discarded, as is a single closed cell without rate well.")
note("C17", "residual of the discretised equation at the returned state, over several steps", "history of steps", "the harness once misattributed a branch (dangling else) and scaled by a negative extrapolated multiplier: corrected.")
note("C18", "volume residual per cell and well by an independent evaluation, reported fluxes and surface volumes from the state", "nonlinear states with crossflow",
     "only the last component of gravity is used by the solver (documented restriction).", "false alarms corrected: the trivial equation of a shut well, diverged Newton pressures, densities used as negative scale, steps limited by compressibility.", "cases with nonpositive half transmissibilities are discarded; Newton may give up.")
note("C19", "linear pressure fields are reproduced exactly; cell balances; wells; positive definiteness; agreement of hybrid and compressible variants with a dense reference", "inner products are only seen on general cells",
     "hybrid solvers take BC_FLUX_TOTVOL as outflow, the two-point solver as inflow (pinned, an observation).", "the caller clears A and b before assembling.", "false alarms corrected: duplicate CSR columns of multiply connected cells, roundoff imbalance ending in face 0 of pure Neumann problems.")
note("C20", "reference partitions, union-find components, set model of the hash set, coarse faces recomputed", "collisions and growth of the hash set, disconnected blocks", "at most as many blocks as cells per direction.")
note("C21", "list models of the containers; side fluxes recomputed from areas", "histories and uneven faces", "sides without faces are not used.")
note("C22", "brute-force reachability: order and strongly connected components", "cycles in particular positions")
note("C23", "residual of each cell's implicit equation at the returned saturation in long double, bounds, conservation", "loops, extreme steps",
     "the multi-cell solver may give up on loops when dt*outflow*slope/pv > 2; its residual slack is 3e-7*slope; cases whose fluxes do not balance are judged by residual only.")
note("C24", "conservation and monotone settling per column; the implicit column equation's residual", "multi-cell columns of arbitrary orientation", "solvers may give up for large theta; saturations generated above `hi` by rounding were a false alarm.")
note("C25", "long double residual of the implicit upwind scheme and its Jacobian by differentiation of the model", "phase directions change with gravity and capillarity",
     "mobilities jump at exact capillary balance without flow: those Jacobians are skipped.", "convergence is only visible in the printed report; states reported unconverged are judged for bounds only.")
note("C26", "one explicit step recomputed in long double", "upwind directions per phase")
note("C27", "each cell's implicit equation at the returned saturation; per-component balance", "compressibility with sinks", "where no saturation in [0,1] solves a cell's equation the better end point is expected; immiscibility is only checked in the first cell (as documented).")
note("C28", "upwind balance per cell in topological order; multidimensional weights recomputed", "flows with sources, sinks and loops", "cells on circulations are solved once and are not judged; stagnant cells have no finite value.")
note("C29", "the weak form evaluated with the library's quadrature of degree 2p (judged by C05) for every basis function; polynomial solutions exactly; limiter models", "limiter cases and orders of solution", "stagnant cells end in an error and are discarded.", "conditioning of the multilinear basis on sheared cells was a false alarm (Cartesian cells only now).")
note("C30", "independent long double evaluation of the tables; analytic derivatives of that evaluation", "saturated/undersaturated branches, records with and without undersaturated data",
     "outside a PVTG table in pressure the value is constant but the derivative is not zero (observation).", "zero oil with gas present treats the live-oil volume factor as undersaturated while R is saturated (observation).", "viscosity derivatives throw (not implemented).",
     "false alarms corrected: sampling bounds across neighbouring segments, truncation of difference quotients (now analytic), cancellation in densities, negative volume factors in scales.")
note("C31", "independent evaluation of tables, Stone I/II/segregation models and end-point scaling with forward derivatives", "saturations at table entries and end points, all model combinations",
     "outside the range raw tables extrapolate linearly: not judged; derivatives with end-point scaling throw; satRange is not scaled by SWL/SWU (observations).")
note("C32", "tensor per cell from the deck entry of its logical index; closed forms of the multiplier", "orders and subsets of components", "PERMXZ-like keywords are not read by the reader; the quadratic law's compressibility is its constant: an attempted change (reverted) made Newton fail in C17, so the oracle follows the code.")
note("C33", "list model of all arguments after every call", "growth of arrays across histories")
note("C34", "a model of wells, groups, completions and limits from the deck's meaning", "schedules, wildcards, group trees",
     "not judged: nested active group controls, limits within 1e-4 of being met, wells without perforations and with default depth, bore holes larger than the equivalent radius.", "observed: GCONPROD/GCONINJE for groups outside the tree are ignored; COMPDAT items 10-14 are not read; wildcards in WCON* are rejected; GRAT group control and zero guide sums throw.")
note("C35", "list of steps and an independent calendar", "long histories and jumps")
note("C36", "closed-form hydrostatics through datum and contact, saturations per side", "contacts inside or outside the grid, inclined layers", "init() on a reused state keeps old fluxes; saturations out of range are accepted (observations).")
note("C37", "the sequence of pressure and transport solves that the options stand for, balances, printed reports and files recomputed", "whole runs over schedules, restarts and option combinations",
     "injection and production in the same cell mix surface and reservoir units in the compressible transport source (observation).", "the local linear solver of the harness throws on singular systems; the library ignores the solver's converged flag (observation).", "surface limits compared with reservoir rates are not judged; producers default to a BHP limit of 1 bar, injectors 6891 bar.")
note("C38", "defining sums per cell, face and well; reports read back", "wells sharing cells, cell lists, cancelling rates")
note("C39", "an independent strict reader of VTK and VAG; round trips; damaged files must be refused", "escape values, huge coordinates, every spelling", "missing whole VAG sections are not judged.")
note("C40", "corners of the model the deck was printed from; exact parallelogram-column volumes", "pillars that lean, decks with DIMENS only", "volumes of left-handed grids are negative (observation); dips are NaN when all edges lie on the outer surfaces.")
note("C41", "reference multiscale method: local unit-flow problems, energy-minimising combination, in long double", "block numbering and mobilities matter only in combination")
note("C42", "the equations evaluated in long double from the solver's inputs and the returned pressures", "no test runs the code", "flux boundary conditions are reported but not assembled (documented); explicit transport ignores pressure boundaries and sources (observation).")
note("C43", "the same object's separately constructed parts, closed forms, and the object itself asked differently", "selections of cells and points in other orders than 0,1,2,...", "end-point scaling offers no relative permeability derivatives (throws).")
note("C44", "NULL exactly when a request was refused; the set of live blocks is empty after destruction; list models of the containers; bytes allocated after each of four runs of the same case", "no test refuses a request, and a leak or an indeterminate pointer on an error path shows in no result",
     "the leak mode re-runs the generators of 28 other harnesses; their own oracles are not judged there.", "tolerated as documented in the code: clone_wells may drop a name, read_grid the index map, coarse_sys_compute_cell_ip does not report.", "process_grdecl, mimetic.c and spu_implicit.c do not claim to survive refusals.")
