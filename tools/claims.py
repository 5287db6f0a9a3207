T = "TLA+ specification checked with TLC; "
claims = {
 "P03": (T + "trace validation of the set-up of every real process and launches of the executable against Topology.tla",
   "Topology.tla is model checked exhaustively for small grids; every process grid for the listed process counts is set up by the real code and validated by TLC. Trusts the MPI library's coordinates."),
}
na = {}
claims["P02"] = (T + "ghost arrays recorded from the real boundary fill (every process) validated cell by cell against Halo.tla",
   "Halo.tla: the two-phase exchange is model checked against the closed-form ghost value; the closed form then judges every ghost value of every process for all boundary combinations and process grids used. Trusts MPI itself.")
claims["P01"] = (T + "step traces of the real solvers on many process grids validated cell by cell against the one-process trace (Replica.tla)",
   "Replica.tla (processes, halos, reduction, any face order) is model checked against the one-process reference for all small initial states; TLC compares every recorded cell, step and time of the decomposed real runs with the one-process real run (tolerance 3e-9 of the scale of the variable).")
claims["P11"] = (T + "step traces of every implementation variant validated cell by cell against variant 0's trace (Replica.tla)",
   "The variants are replicas of one reference machine (TraceReplica.tla); TLC compares every cell, step and time. Random rough states, all built-in problems, Riemann solvers, slope types, boundaries; agreement is to 3e-9 of the scale of each variable.")
claims["P13"] = (T + "step traces of transformed runs (axis exchange, reflection, shift, extrusion) validated cell by cell against the reference under Relation.tla",
   "Relation.tla (action on coordinates, components, faces and points) is model checked for all permutations, reflections, shifts on small grids; TLC then compares every recorded value, step and time of transformed real runs. Random states; tolerance 3e-9. Face-centred fields are reflected along periodic axes only.")
claims["P09"] = (T + "drift of the domain totals recorded from the real solvers, judged by the flux-sharing structure of FiniteVolume.tla",
   "FiniteVolume.tla / Ct.tla show for arbitrary face fluxes and EMFs, any order, that totals stay constant under the boundary conditions MustConserve names; the same operator decides on every recorded run which totals must not drift (3e-11 of the content). Random states, finite number of steps.")
claims["P10"] = (T + "face fluxes recorded from the real MHD solvers; TLC computes the divergence of every cell at every step (Ct.tla)",
   "Ct.tla: circulation updates with arbitrary EMFs keep every cell's divergence zero (all small grids); TLC evaluates the discrete divergence of every recorded cell. Cells whose upper face is set by a non-periodic boundary condition are not constrained.")
claims["P12"] = (T + "extrema of the deviation from the uniform state recorded from the real solvers, judged against StaysUniform of FiniteVolume.tla",
   "Every consistent flux keeps a uniform state (model, all small grids); recorded runs of every solver option must not deviate by more than 2e-10 of the scale.")
claims["P23"] = (T + "extrema of density and pressure recorded from built-in problems, judged by TLC; Positivity.tla shows why the step limit suffices for donor-cell fluxes",
   "Bounded runs of the built-in problems; cell averages for spectral difference. The magnetic rotor is left out (no solver guarantees positivity there).")

claims["P14"] = ("TLA+ specification of parallel loops (Schedule.tla: reads, writes and atomic additions of iterations in any interleaving) with the theorem checked by TLC that loops whose iterations do not conflict give one result in every schedule, and of reductions (Reduction.tla: any partition and join order). Conformance: every parallel loop of every solver, variant, limiter, boundary and initial state is executed on the real code iteration by iteration from the state before and after all the others; the recorded write sets, atomic additions, dependences and reduction contributions are judged by TLC against the specification, and whole runs in several orders and thread counts must be identical",
                  "the iteration experiments run on small meshes; thread schedules of whole runs are sampled")

claims["P04"] = (T + "clock readings of every process before and after every iteration of the real solvers validated against TimeLoop.tla in exact limb arithmetic",
   "TimeLoop.tla (steps, clipping, stopping, outputs) is model checked for all small step sequences, end times and output counts, plain and restarted; TLC decides every recorded step: positive, exactly the step that was used, never past the end, all processes equal, stopping exactly when the model stops. Random states and end times, a finite number of runs.")
claims["P06"] = (T + "files found after runs of the executables, each attributed to the step of an output-free reference run whose state it holds, validated against the output schedule of TimeLoop.tla",
   "The schedule is model checked for all small step sequences and output counts; runs of the serial, parallel and restarted executables with every kind of output count are judged by TLC (missing, extra, misnumbered or mistimed snapshots, wrong index). VTK image files carry no time: their number and content are compared with the HDF5 file of the same number.")
claims["P05"] = (T + "steps of the real solvers on replayed states with exactly known signal speeds and on evolving states, validated against Cfl.tla / StepLimit.tla",
   "StepLimit.tla (alternating buffers, local limits, reduction, clipping) is model checked; Cfl.tla defines fluids by the exact relations of sound and fast waves; TLC writes them out, they are planted at every interior corner of every process (ghosts and stale buffer filled with faster fluid, both iteration parities, gravity, rescaled spectral-difference steps) and TLC decides every recorded step in exact arithmetic. Oblique magnetic fields are covered by evolving states only, with speeds computed by the harness.")

claims["P20"] = (T + "momentum, energy and mass gained in recorded steps of the real solvers with gravity planted in single cells and everywhere, validated against the source step of Gravity.tla, and turned random fields against Replica.tla",
   "Gravity.tla (arbitrary conservative fluxes followed by the source step) is model checked: the totals identify the source whatever the fluxes are; TLC evaluates the source on the recorded cells and compares. Periodic boundaries, integer multiples of 1/4 as field values, finite number of states, all variants and several process grids; the fields set up by the built-in problems and the softened point source are decided exactly; runs with random cell-varying fields, exchanged, reflected or shifted together with the state, must give the equally turned result.")

claims["P07"] = (T + "HDF5 files written by the real solvers, read by an independent reader, and states loaded back on other process grids, validated cell by cell and bit by bit against Snapshot.tla",
   "Snapshot.tla (save / crash / load of distributed blocks in the five file arrangements) is model checked: every arrangement places every cell once and save-then-load is the identity on every process grid; TLC compares every cell of every recorded file and load. A finite number of states, mesh sizes, process grids, compression levels.")

claims["P08"] = (T + "restarted runs of the real solvers and of killed executables validated step by step, clock by clock and snapshot by snapshot against the uninterrupted run (Restart.tla, Relation.tla, Snapshot.tla)",
   "Restart.tla (deterministic steps, non-atomic snapshot writes, crash at any point, resume from any complete snapshot, reset clock) is model checked: every later state is a state of the uninterrupted run and numbers agree when the output interval has room; TLC compares recorded restarts of random and built-in problems on the same and other process grids (tolerance 3e-9), restarts at twice the resolution exactly. Kill times are sampled.")
claims["P15"] = (T + "generated parameter files replayed into every way of reading, each answer validated against Ini.tla",
   "Ini.tla specifies lines, comments, continuations, sections, merging and typed access character by character; TLC checks its laws (case and blanks do not matter, the last definition wins, comments change nothing, all ways of reading agree) on all small documents and writes documents that are replayed into ConfigMap, ini_parse_buffer and broadcast_parameters; random large documents are read by the real code and every answer is judged by TLC. Locale-dependent characters are not generated.")
claims["P16"] = (T + "image and unstructured-grid files read back by an independent reader and validated value by value and extent by extent against Vtk.tla",
   "Vtk.tla (pieces tile the whole extent, node and connectivity numbering of spectral-difference sub-cells) is model checked on small grids; TLC compares every value, extent, origin, spacing, offset, node and index entry of text and binary, serial and parallel files with the recorded states. Values as bits when written raw, to the printed digits otherwise. zmin other than 0 in 2D is not exercised.")
claims["P21"] = (T + "real fluxes and edge fields for generated states validated against Riemann.tla in 24-digit arithmetic",
   "Riemann.tla defines the physical fluxes, LLF, HLL, HLLC, HLLD, the two-shock solution and the edge electric field over the fixed-point reals of Fixed.tla; TLC checks consistency, mirror, transposition, field reversal, transverse Galilean shift, upwinding, exact contacts and rotations on a grid of states. The real riemann_hydro (2D, 3D), riemann_mhd and compute_emf, selected by name from a parameter file, are called for planted states and TLC recomputes each flux. Floors (smallr, smallp) and the isothermal option are not exercised; the two-shock solver is compared to 1e-5 because the code iterates only to 1e-6.")
claims["P17"] = (T + "settings resolved by the real reader, starts of the executables and one-step updates of the selected solvers validated against Params.tla",
   "Params.tla (names, physics, dimension, degree, variables, ghost width, defaults and fallbacks of every numeric choice, failing starts) is model checked over all names and choices; TLC judges the settings every process of the real code resolves from generated documents, every start of the executables (exit status, files, kind and size of the output) and the update of cells beside an interface, recomputed in 24-digit arithmetic with the Riemann solver the document names. A finite number of documents; the two-shock solver to 1e-5.")
claims["P22"] = (T + "cells of the initial states of all built-in problems, with their gravity, recomputed by TLC from Initial.tla in 24-digit arithmetic",
   "Initial.tla defines every problem as a function of its parameters and the position; TLC checks that the definitions are admissible, solenoidal, hydrostatic or in rotational balance, single waves between quadrants and eigenvectors of the MHD fluxes; then recomputes sampled cells (jumps, process corners, random) of the real states, serial and decomposed, finite volumes and spectral differences, all, some, one or none of the parameters set. Random perturbations (KH perturbation_rand) are only bounded; moving frames of the Gresho vortex are not implemented by the code and not exercised.")
claims["P19"] = (T + "cells limited and squeezed by the real procedures, averages, slopes and flux values recomputed by TLC from Limiter.tla in 24-digit arithmetic",
   "Limiter.tla defines averages, slopes, characteristic variables, minmod limiting and the positivity squeeze; TLC checks the tables from their definitions (Lagrange, Gauss), that averages are kept, linear data stays, limiting twice changes nothing, slopes lie within the neighbours' differences and squeezed cells are admissible; then judges cells before and after the procedures of the real solver (2D degrees 1 to 6, 3D degrees 2 to 4; random, strong, smooth, linear and nearly empty states). A finite number of cells; decisions within rounding of the threshold are accepted either way.")
claims["P18"] = (T + "cells after real steps from linear data, and flux divergences and Runge-Kutta steps of real spectral-difference cells on polynomial flows, recomputed by TLC from Smooth.tla and Operator.tla in 24-digit arithmetic",
   "Smooth.tla gives the first two time derivatives of a (magneto)hydrodynamic flow linear in position; TLC checks that they belong to the conservation laws, keep div B, are Galilei invariant and single out no axis; then judges one step of every solver, Riemann solver, implementation and slope type 1 and 2 from random linear data of variation 2^-15 per cell, to 1.5e-4 of its square. Operator.tla gives fluxes and divergences of polynomial flows and the Runge-Kutta tableaux, checked for order, consistency and convexity, and the nodes' exactness; TLC judges divergences and steps (2D degrees 1 to 6, 3D degrees 2 to 4, four methods). Limited extrema and the error over many steps follow from these and are not measured; energy under gravity is only first order in time (split source) and is left to P20.")
claims["P24"] = (T + "what viscosity adds to the flux divergence of real spectral-difference cells on polynomial flows recomputed by TLC from Operator.tla; totals for rough states",
   "Operator.tla gives stress, viscous fluxes and their divergence for polynomial flows; TLC checks that the stress is symmetric, trace free, blind to uniform motion and rotation, dissipative, and that work and heating balance; then judges the difference between the real flux divergences with and without viscosity (2D degrees 1 to 6, 3D degrees 2 to 4, four shapes of flow), the totals of rough states, and that the conduction setting leaves mass and momentum alone. Cells beside the domain boundary are left out: the velocity gradients of ghost cells are a known finding (P01, P09, P13).")
claims["P25"] = (T + "ghost points filled by the real solvers recomputed by TLC from Inflow.tla in 24-digit arithmetic",
   "Inflow.tla extends Initial.tla by what every ghost point of the jet and wedge problems holds at a time: a state or another point (interior tagged with distinct integers, so copies are known by value); TLC checks that every chain ends, that the top border continues the initial state at time 0, only grows and moves at the shock's speed, and that the nozzle alone is fed; then judges sampled ghost points, corners first, of real solvers (2D degrees 2 to 4, 3D degrees 2 and 3, up to 4 processes, all or some parameters set) at set times and after real steps. Whether an outflow cell copies its points in order or mirrored is left open.")
