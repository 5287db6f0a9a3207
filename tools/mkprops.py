import json
P=[]
def p(id,title,st,over,q,why,files,state,mech,obs,hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
S="src/shared/"; M="src/muscl/"; U="src/utils/"; D="src/sdm/"
p("P01","Results do not depend on the process decomposition",
 "A simulation of a given global grid produces the same cell values, time steps and times (up to floating-point rounding) whether it is run by one process or by any number of processes in any 2D or 3D Cartesian arrangement. This holds for every finite-volume hydro and MHD solver, every implementation variant, every built-in initial problem and every combination of wall, outflow and periodic boundaries, with or without static gravity, and for the spectral-difference solvers with every Runge-Kutta method, limiter and positivity option.",
 ["configurations","inputs"],"all process grids (mx,my,mz), all solvers, variants, problems and boundary combinations, any number of steps",
 "The MPI tests exercise the communicator and configuration broadcast only; no test runs a solver on more than one process, let alone compares it with a serial run over the decompositions.",
 [S+"SolverBase.cpp",S+"mpiBorderUtils.h",S+"HydroParams.cpp",M+"SolverHydroMuscl.cpp",M+"SolverMHDMuscl.cpp",M+"HydroInitFunctors2D.h",M+"MHDInitFunctors3D.h"],
 [("U","conserved variables of the local sub-domain with ghosts",M+"SolverHydroMuscl.h"),("border buffers","faces exchanged with each neighbour",S+"SolverBase.h")],
 [("make_boundaries_mpi: copy, exchange, copy back per direction",S+"SolverBase.cpp"),("global minimum reduction of dt",S+"SolverBase.cpp"),("init functors use the global offset of the rank",M+"HydroInitFunctors2D.h")],
 ["cell arrays, t and dt of every rank after every step"])
p("P02","Boundary fill gives every ghost cell its prescribed value",
 "After the ghost layers are filled, every ghost cell (edges and corners included) holds exactly the interior value prescribed by the boundary condition of its face: the periodic image, the nearest interior cell for outflow, or the mirror cell with the normal momentum (and in MHD the normal magnetic component) reversed for walls; interior cells are never modified. On several processes, a ghost cell that lies inside the global domain, or across a periodic boundary, holds the value owned by the process that has that cell. It holds in 2D and 3D, for hydro, MHD and the spectral-difference solvers (where the points inside a mirrored cell are mirrored too).",
 ["configurations","inputs"],"all boundary combinations x grid sizes x process grids x solver families x field contents",
 "No test calls the boundary fill; a solver test with one boundary type could never see a wrong corner, a wrong sign of one variable in one direction or a swapped neighbour.",
 [S+"BoundariesFunctors.h",S+"SolverBase.cpp",S+"mpiBorderUtils.h",D+"SDM_Boundaries_Functors.h",D+"SolverHydroSDM.h"],
 [("ghost cells","outer ghostWidth layers of the data array",S+"HydroParams.h")],
 [("face functors for each boundary type",S+"BoundariesFunctors.h"),("border copy in/out functors",S+"mpiBorderUtils.h"),("face order X, Y, Z fills corners",S+"SolverBase.cpp")],
 ["the data array after make_boundaries on tagged input"])
p("P03","Processes tile the domain with consistent neighbours and boundaries",
 "For every process grid the sub-domains tile the global domain exactly once and cell spacing equals the domain length divided by the global cell count; each process sees as its neighbour in a direction the process owning the adjacent sub-domain (cyclically), and neighbour relations are reciprocal. A physical boundary condition from the parameter file is applied on a process face exactly when that face lies on the global domain boundary, and inner faces are exchange faces. A run whose process grid does not match the number of processes is refused on all processes instead of computing.",
 ["configurations"],"all mx,my,mz with mx*my*mz processes, 2D and 3D, all boundary choices",
 "The topology test prints ranks for one process count; it does not assert tiling, reciprocity or boundary assignment for all grids.",
 [S+"HydroParams.cpp",U+"mpiUtils/MpiCommCart.cpp".replace("MpiCommCart.cpp","MpiCommCart.h"),U+"mpiUtils/MpiComm.cpp"],
 [("myMpiPos","Cartesian coordinates of the rank",S+"HydroParams.h"),("neighborsRank","rank beyond each face",S+"HydroParams.h"),("neighborsBC","condition used on each face",S+"HydroParams.h")],
 [("setup_mpi",S+"HydroParams.cpp"),("Cartesian communicator",U+"mpiUtils/MpiCommCart.h")],
 ["HydroParams of every rank","exit status of the executable"])
p("P04","Time advances by positive steps and stops exactly at the limit",
 "In every run, time starts at the configured (or restarted) time and each iteration advances it by exactly the strictly positive, finite step that was used to update the state, and the iteration counter by one; time never passes the end time. The run stops exactly when the end time is reached or the maximum number of steps has been done, whichever comes first, with no further update afterwards, and all processes agree on every step, time and on stopping.",
 ["inputs","configurations","histories"],"all solvers, end times, CFL numbers, step limits, process counts",
 "Tests never run the time loop of any solver to its end; a fixed run cannot cover the clipping of the last step, step limits and tiny remainders.",
 [S+"SolverBase.cpp","src/main.cpp",M+"SolverHydroMuscl.cpp",M+"SolverMHDMuscl.cpp",D+"SolverHydroSDM.h"],
 [("m_t, m_dt, m_iteration","simulated time, step, iteration",S+"SolverBase.h")],
 [("clip dt to tEnd - t",S+"SolverBase.cpp"),("finished()",S+"SolverBase.cpp"),("main loop","src/main.cpp")],
 ["t, dt, iteration around each next_iteration call","stdout and snapshots of the executable"])
p("P05","Every time step obeys the stability limit of the current state",
 "The step used in an iteration equals the Courant number times the smallest stable step over all interior cells of all processes, evaluated on the most recent state (sound speed plus speed in hydro, fast magnetosonic speed in MHD, the gravity-corrected signal speed when static gravity is on, the polynomial-degree-reduced limit for spectral-difference), shortened only to land on the end time. A single fast or dense cell anywhere in the interior of any process limits the step of all processes, and ghost cells or stale buffers never influence it.",
 ["inputs","histories","configurations"],"all states, position of the limiting cell, solvers, iteration parity, process counts",
 "No test computes a time step; the limiting cell can be anywhere and the buffer parity alternates, so sampled runs cannot settle it.",
 [S+"SolverBase.cpp",M+"SolverHydroMuscl.h",M+"SolverMHDMuscl.h",M+"HydroRunFunctors2D.h",M+"MHDRunFunctors3D.h",D+"SDM_Dt_Functor.h"],
 [("m_dt","current step",S+"SolverBase.h"),("U, U2","double buffer",M+"SolverHydroMuscl.h")],
 [("compute_dt_local reductions",M+"SolverHydroMuscl.h"),("allReduce MIN",S+"SolverBase.cpp")],
 ["m_dt after compute_dt for planted states"])
p("P06","Snapshots follow the output schedule and are numbered without gaps",
 "With output enabled, a run writes the initial state first, then at most one snapshot per step, at the first step boundary strictly past each multiple of the output interval (every step when the requested count is negative), and finally the final state; with output count zero it writes no snapshot. Snapshot numbers are consecutive from zero (or from the restart number), each file carries its own number and (HDF5 and spectral-difference files) the simulated time of the state in it, and the time-series index files list exactly the snapshots written. Writing output never changes the computed solution.",
 ["inputs","histories","configurations"],"all end times, output counts, step sequences, restart points, output formats",
 "Tests write one snapshot by hand; no test runs the scheduler.",
 [S+"SolverBase.cpp","src/main.cpp",U+"io/IO_ReadWrite.cpp",U+"io/IO_HDF5.cpp"],
 [("m_times_saved","number of the next snapshot",S+"SolverBase.h")],
 [("should_save_solution",S+"SolverBase.cpp"),("save_solution",S+"SolverBase.cpp"),("writeXdmfForHdf5Wrapper",U+"io/IO_HDF5.cpp")],
 ["files in the output directory, their attributes, the xmf index"])
p("P07","An HDF5 snapshot is the exact current state and loads back unchanged",
 "A written HDF5 snapshot contains, under its physical name, every conserved variable of every interior cell of the most recently computed state, at the position of that cell in the global grid, bit for bit, with the right sizes, step number and time. Loading it back with the same settings restores exactly those interior values, number and time. This holds in 2D and 3D, hydro and MHD, with or without ghost zones, any compression level, serial or parallel, and the file written by many processes equals the one written by one process, cell for cell, in each of the documented arrangements (whole domain, whole domain with ghost cells, or one slab per process). Ghost cells, when included, hold the boundary values of that same state.",
 ["inputs","configurations"],"all states, ghost options, compression levels, process grids, iteration parities",
 "The round-trip test uses one serial 2D and one 3D hydro field and the same code for writing and reading, so a consistent error (wrong name, offset, stale buffer) is invisible.",
 [U+"io/IO_HDF5.h",U+"io/IO_ReadWrite.cpp",M+"SolverHydroMuscl.h",M+"SolverMHDMuscl.h"],
 [("datasets /rho /energy /rho_vx ...","one per variable",U+"io/IO_HDF5.h")],
 [("hyperslab selection",U+"io/IO_HDF5.h"),("copy_buffer",U+"io/IO_HDF5.h"),("choice of the newest buffer",M+"SolverHydroMuscl.h")],
 ["the .h5 file read by an independent reader","loaded arrays"])
p("P08","A restarted run continues exactly like the uninterrupted run",
 "Stopping a run at any saved snapshot and restarting from that file, on the same or another process grid, continues with the same time, the same subsequent steps and cell values (to rounding) and, when the output interval is not shorter than a step, the same snapshot numbering as the run that was not interrupted (the first snapshot of the restarted run rewrites the one it started from; after the end of the run this is the only thing that happens besides the closing snapshot). The guarantee covers runs that were killed at any moment. Resetting the total time on restart changes only the clock. Restarting from a snapshot of half the resolution starts from the state in which every fine cell holds the value of the coarse cell containing it (magnetic face components interpolated so that the discrete divergence stays zero).",
 ["crash_points","histories","configurations"],"all snapshots as restart points, hydro/MHD, 2D/3D, process grids, restart options",
 "No test restarts a run.",
 [M+"SolverHydroMuscl.cpp",M+"SolverMHDMuscl.cpp",U+"io/IO_HDF5.h",U+"io/IO_ReadWrite.cpp",S+"SolverBase.cpp"],
 [("m_t, m_times_saved, U","restored state",S+"SolverBase.h")],
 [("init_restart",M+"SolverHydroMuscl.h"),("Load_HDF5",U+"io/IO_HDF5.h")],
 ["state after restart and after later steps"])
p("P09","Mass, momentum, energy and magnetic flux are conserved",
 "Over any number of steps the domain totals of mass, momentum and total energy (and magnetic field components in MHD) stay constant to rounding when all boundaries are periodic; with reflecting walls, mass and energy stay constant; with static gravity, mass stays constant. It holds for every solver, implementation variant, Riemann solver, slope limiter and spectral-difference option (Runge-Kutta scheme, limiter, positivity preservation, viscosity), on any number of processes.",
 ["inputs","configurations","histories"],"all initial states, solver options, steps",
 "Tests never run a solver; conservation is a universal statement over states and options.",
 [M+"HydroRunFunctors2D.h",M+"HydroRunFunctors3D.h",M+"MHDRunFunctors2D.h",M+"MHDRunFunctors3D.h",D+"SDM_Interpolate_Functors.h",D+"SDM_Run_Functors.h"],
 [("fluxes","face fluxes shared by two cells",M+"SolverHydroMuscl.h")],
 [("flux difference update",M+"HydroRunFunctors2D.h"),("derivative of flux polynomial",D+"SDM_Interpolate_Functors.h")],
 ["sums of interior cells after every step"])
p("P10","The magnetic field stays divergence free",
 "In every MHD run the discrete divergence of the face-centred magnetic field of every interior cell stays zero to rounding if it is zero initially, in 2D and 3D, for every implementation variant, Riemann solver and boundary condition, on any number of processes (except in cells whose upper face lies on a non-periodic domain boundary, where the boundary condition sets that face). All built-in MHD problems start with zero divergence.",
 ["inputs","configurations","histories"],"all divergence-free initial fields, variants, steps, decompositions, built-in problems",
 "No test runs an MHD solver.",
 [M+"MHDRunFunctors2D.h",M+"MHDRunFunctors3D.h",M+"SolverMHDMuscl.cpp",M+"MHDInitFunctors2D.h",M+"MHDInitFunctors3D.h"],
 [("IA, IB, IC","face-centred magnetic field components",S+"enums.h"),("Emf","edge electromotive forces",M+"SolverMHDMuscl.h")],
 [("constrained transport update",M+"MHDRunFunctors3D.h")],
 ["discrete divergence per cell after every step"])
p("P11","Implementation variants of a scheme compute the same solution",
 "For the same problem, all selectable implementation variants of a finite-volume solver (stored fluxes, stored slopes, direction by direction) produce the same time steps and the same cell values to rounding after any number of steps, in hydro and MHD, 2D and 3D, for every Riemann solver, slope type and, where the variant supports it, static gravity.",
 ["inputs","configurations"],"all states, variants, options",
 "No test runs any variant.",
 [M+"SolverHydroMuscl.cpp",M+"SolverMHDMuscl.cpp",M+"HydroRunFunctors3D.h",M+"MHDRunFunctors3D.h"],
 [("implementationVersion","selected variant",S+"HydroParams.h")],
 [("godunov_unsplit_impl branches",M+"SolverHydroMuscl.cpp")],
 ["cell arrays of runs that differ only in the variant"])
p("P12","A uniform state stays uniform",
 "If density, velocity, pressure and magnetic field are initially constant over the domain, they stay constant to rounding for ever under periodic and outflow boundaries, for every solver, Riemann solver, slope limiter, implementation variant, cell aspect ratio, spectral-difference degree, Runge-Kutta scheme, limiter, positivity and viscosity option, on any number of processes.",
 ["inputs","configurations"],"all uniform states and solver options",
 "No test runs a solver.",
 [M+"HydroRunFunctors2D.h",M+"MHDRunFunctors3D.h",S+"RiemannSolvers.h",S+"RiemannSolvers_MHD.h",D+"SolverHydroSDM.h"],
 [("U","conserved variables",M+"SolverHydroMuscl.h")],
 [("consistent fluxes, slopes vanish",S+"RiemannSolvers.h"),("interpolation weights sum to one, derivative weights to zero",D+"SDM_Geometry.h")],
 ["cell arrays after every step"])
p("P13","The schemes treat directions and orientation alike",
 "Exchanging two coordinate axes, reflecting an axis, or shifting a periodic initial state by whole cells, and running, gives the equally exchanged, reflected or shifted solution to rounding. A 3D run whose state does not vary along one axis (and has no velocity or field along it) equals the corresponding 2D run (without gravity or viscosity, whose step limit and stress tensor depend on the dimension). It holds for all hydro and MHD finite-volume solvers, variants and Riemann solvers, and for the spectral-difference solvers.",
 ["inputs","configurations"],"all states, symmetry operations, solver options",
 "No test runs a solver, and copy-paste code per direction is where such errors live.",
 [M+"HydroRunFunctors2D.h",M+"HydroRunFunctors3D.h",M+"MHDRunFunctors2D.h",M+"MHDRunFunctors3D.h",M+"MHDBaseFunctor3D.h",D+"SDM_Flux_Functors.h"],
 [("IU/IV/IW, IA/IB/IC permutations","component swaps before/after the 1D solver",M+"HydroRunFunctors3D.h")],
 [("per-direction code with swapped components",M+"HydroRunFunctors3D.h")],
 ["cell arrays of the transformed run against the transformed run's original"])
p("P14","Results do not depend on thread count or scheduling",
 "For a given configuration the computed cell values, steps and times are the same for any number of threads and any execution order of the parallel loops, in all solvers: bit for bit where every value is written by one iteration, and up to the rounding of reordered sums in the MHD variants that add contributions atomically. Repeated runs are identical. (The random perturbation of an initial state is outside this property.)",
 ["schedules"],"all thread counts and loop schedules",
 "Tests run with a fixed thread count and compare nothing across schedules.",
 [M+"HydroRunFunctors2D.h",M+"MHDRunFunctors3D.h",M+"SolverMHDMuscl.cpp",D+"SDM_Run_Functors.h",S+"BoundariesFunctors.h"],
 [("U, Q, fluxes","arrays written by parallel loops",M+"SolverHydroMuscl.h")],
 [("each loop iteration writes only its own cell",M+"HydroRunFunctors2D.h")],
 ["cell arrays for several thread counts"])
p("P15","Parameter files mean the same however they are read",
 "Every value in a parameter file is found under its section and key regardless of letter case and surrounding blanks, comments (a line starting with ; or #, or ; after a blank) are ignored, the last definition wins, an indented line continues the entry above it, section names up to 49 characters are kept whole, lines may have any length, and typed access returns the written number (single precision for reals), word or truth value, or the caller's default if the key is absent or the value of a truth setting is not recognised. Reading the file directly, reading it from a memory buffer, and reading it on one process and broadcasting it give the same values on all processes. A malformed line is reported by the number of the first such line, without losing the other entries, and a file that cannot be read is reported as an error.",
 ["inputs"],"all parameter files",
 "Tests read one or two small files.",
 [U+"config/ConfigMap.cpp",U+"config/inih/ini.cpp",U+"config/inih/INIReader.cpp"],
 [("_values","section.key map",U+"config/inih/INIReader.h")],
 [("ini_parse / ini_parse_buffer",U+"config/inih/ini.cpp"),("broadcast_parameters",U+"config/ConfigMap.cpp")],
 ["ConfigMap getters"])
p("P16","VTK output describes the grid and the current state exactly",
 "A VTK snapshot declares the interior grid (extent, origin, spacing) and, under each variable's name, the interior values of the most recent state in grid order, in binary exactly and in text to the printed precision; offsets and byte counts match the data. On several processes the piece files cover the global extent exactly once, the index file names every piece with that piece's own extent, and together they hold the same values as the single-process file.",
 ["inputs","configurations"],"all states, 2D/3D, hydro/MHD, text/binary, process grids",
 "The VTK test writes files and asserts nothing about them.",
 [U+"io/IO_VTK.cpp",U+"io/IO_ReadWrite.cpp"],
 [("piece extents","local extent in global cell indices",U+"io/IO_VTK.cpp")],
 [("save_VTK_*",U+"io/IO_VTK.cpp"),("write_pvti_header",U+"io/IO_VTK.cpp")],
 ["the .vti/.pvti files read by an independent reader"])
p("P17","The parameter file selects the solver and its numerics",
 "Each documented solver name builds exactly that scheme: dimension, physics, number of variables, ghost width and polynomial degree; each documented Riemann solver name, boundary code and variant number selects that choice, and unusable choices fall back to the documented default. Grid sizes, spacing, ratio of specific heats, Courant number and floors used in the run are the ones in the file. An unknown solver name or a missing parameter file ends the run with a failure status and no output.",
 ["inputs","configurations"],"all solver names and parameter combinations",
 "Tests check a couple of exit codes of one invalid configuration.",
 [S+"SolverFactory.cpp",S+"HydroParams.cpp",S+"SolverBase.cpp","src/main.cpp"],
 [("HydroParams","all run parameters",S+"HydroParams.h")],
 [("SolverFactory map",S+"SolverFactory.cpp"),("HydroParams::setup",S+"HydroParams.cpp")],
 ["solver type, params after setup","exit status"])
p("P18","Smooth solutions converge at the design order",
 "Smooth flows are followed at the scheme's design order. One step of every finite-volume solver (every Riemann solver, implementation version, slope type 1 or 2, any cell aspect ratio, sub- or supersonic, with magnetic field) from data linear in position equals the exact solution of the equations through second order in the variation per cell and step, with a remainder of third order; with static gravity this holds for density and momenta. In the spectral-difference solvers the flux divergence is exact whenever conserved variables have degree below n and fluxes degree at most n per direction (n values per direction), and one step of each Runge-Kutta method (forward Euler, SSP 2, 3 and (5,4)) multiplies a purely advected polynomial by exactly that method's growth polynomial, which agrees with the exponential to the method's order.",
 ["inputs","configurations"],"all smooth states, resolutions, solvers, degrees and time integrators",
 "Tests check the one-dimensional Lagrange matrices only; no solver is run.",
 [M+"HydroBaseFunctor2D.h",M+"HydroBaseFunctor3D.h",M+"MHDBaseFunctor3D.h",D+"SolverHydroSDM.h",D+"SDM_Geometry.h",D+"SDM_Interpolate_Functors.h"],
 [("Runge-Kutta coefficients","stage weights",D+"SolverHydroSDM.h")],
 [("slopes and trace",M+"HydroBaseFunctor3D.h"),("sol2flux, flux2sol derivative matrices",D+"SDM_Geometry.h")],
 ["cell arrays after one step; flux divergences"])
p("P19","Spectral-difference limiters only act where needed and keep averages",
 "The limiter and the positivity-preserving procedure leave every cell average of every variable unchanged to rounding. After the positivity procedure, a cell whose average is admissible has positive density and pressure at all its flux points, and data that already are admissible there stay as they are. The limiter leaves a cell alone where its slopes agree with those to the neighbours or stay below the threshold M_TVB; elsewhere it makes the cell linear, with slopes that in characteristic variables do not exceed the differences to the neighbours. All of it holds in 2D and 3D for every degree.",
 ["inputs","configurations"],"all cell states, degrees, limiter options",
 "No test calls the limiter or the positivity procedure.",
 [D+"SDM_Limiter_Functors.h",D+"SDM_Positivity_preserving.h",D+"SolverHydroSDM.h"],
 [("Uaverage","cell averages",D+"SolverHydroSDM.h")],
 [("Apply_limiter_Functor",D+"SDM_Limiter_Functors.h"),("Apply_positivity_Functor_v2",D+"SDM_Positivity_preserving.h")],
 ["degrees of freedom before and after the procedure"])
p("P20","Static gravity accelerates the fluid as prescribed",
 "With static gravity a step changes the momentum of each cell by the gravity of that cell times the mean of the old and new density times the step, on top of the flux update, and the energy by exactly the change of kinetic energy; density is not changed by gravity. With zero gravity strength a step of given size gives the same result as with gravity off, and without fluxes (uniform fluid in uniform gravity, periodic) the velocity grows as gravity times time. A field that varies from cell to cell acts alike along all axes: state and field exchanged, reflected or shifted together give the equally moved solution.",
 ["inputs","configurations"],"all states, gravity fields, variants, 2D/3D",
 "No test runs with gravity.",
 [M+"HydroRunFunctors2D.h",M+"HydroRunFunctors3D.h",M+"SolverHydroMuscl.cpp",M+"HydroInitFunctors2D.h",M+"HydroInitFunctors3D.h"],
 [("gravity","static gravity vector field",M+"SolverHydroMuscl.h")],
 [("GravitySourceTermFunctor, half-step predictor",M+"HydroRunFunctors2D.h")],
 ["momentum and energy totals per step"])
p("P21","Every Riemann solver is consistent, symmetric and returns its scheme's flux",
 "For equal left and right states each selectable Riemann solver returns the exact physical flux of that state; for mirrored states it returns the mirrored flux; when all waves move in one direction (supersonic flow) the sharp solvers return the upwind physical flux; transverse momentum and any passive component are carried by the mass flux's upwind side. In between, the flux is that of the named scheme (local Lax-Friedrichs, HLL, HLLC, HLLD with outer wave speeds min u - max c and max u + max c; iterated two-shock solution), isolated contacts are kept exactly by approx, hllc and hlld and isolated rotations by hlld; the edge electric field of four equal states is u B - v A and respects mirror and transposition. It holds for hydro in 2D and 3D and for MHD, whatever the units.",
 ["inputs"],"all admissible left/right states, all Riemann solvers",
 "No test calls a Riemann solver.",
 [S+"RiemannSolvers.h",S+"RiemannSolvers_MHD.h",S+"mhd_utils.h"],
 [("flux","interface flux vector",S+"RiemannSolvers.h")],
 [("riemann_approx/llf/hll/hllc/hlld",S+"RiemannSolvers.h")],
 ["flux returned for planted states"])
p("P22","Built-in problems start from their documented initial states",
 "Each built-in problem fills every cell, on every process and in 2D and 3D, with the state its definition prescribes for the cell's physical position: admissible density and pressure, the regions and values set by the parameter file, and consistent total energy; changing a documented problem parameter changes exactly what it documents.",
 ["inputs","configurations"],"all problems, parameters, positions",
 "No test looks at an initial state.",
 [M+"HydroInitFunctors2D.h",M+"HydroInitFunctors3D.h",M+"MHDInitFunctors2D.h",M+"MHDInitFunctors3D.h","src/sdm/init","src/shared/problems"],
 [("U at t=0","initial conserved state",M+"SolverHydroMuscl.h")],
 [("init functors",M+"HydroInitFunctors2D.h")],
 ["cell array after construction"])
p("P23","Density and pressure stay positive in strong flows",
 "In the built-in shock, blast, implosion and vortex problems run at a Courant number within the scheme's limit, every interior cell (its average, for spectral-difference) keeps finite values with positive density and pressure at every step, for all finite-volume solvers and Riemann solvers and for spectral-difference with limiting and positivity preservation on.",
 ["inputs","histories","configurations"],"all shock problems, solvers, options, steps",
 "No test runs a solver.",
 [M+"HydroBaseFunctor2D.h",S+"RiemannSolvers.h",D+"SDM_Positivity_preserving.h"],
 [("U","conserved variables",M+"SolverHydroMuscl.h")],
 [("density/pressure floors, limited slopes",M+"HydroBaseFunctor2D.h")],
 ["min density and pressure per step"])
p("P24","Viscosity and heat conduction dissipate as prescribed",
 "In the spectral-difference solvers, viscosity adds to the equations the divergence of the symmetric, trace-free Newtonian stress mu (grad u + grad u^T - 2/dim div u) and of its work, and nothing else: on flows the scheme represents exactly the contribution is exact for every mu, degree, dimension and cell aspect ratio; mass is never touched; total momentum and energy are unchanged; uniform motion and rigid rotation feel nothing; mu = 0 is the inviscid scheme. The thermal diffusivity setting (accepted, though no conduction is implemented) never changes mass or momentum fluxes.",
 ["inputs","configurations"],"all smooth states, viscosity values, degrees, 2D/3D",
 "No test runs the viscous terms.",
 [D+"SDM_Viscous_Flux_Functors.h",D+"SDM_Interpolate_viscous_Functors.h",D+"SolverHydroSDM.h"],
 [("FUgrad","velocities and gradients at flux points",D+"SolverHydroSDM.h")],
 [("compute_viscous_fluxes_divergence_per_dir",D+"SolverHydroSDM.h")],
 ["cell arrays with and without viscosity"])
p("P25","Jet and wedge flows are fed through their boundaries as prescribed",
 "In the jet problem the ghost cells at the low x border always hold the jet state inside the nozzle (centre, width; a slit in 2D, round in 3D) and the bulk state around it, all other borders let the flow out. In the wedge problem (double Mach reflection, 2D) the low x border and the part of the low y border ahead of the ramp hold the state behind the shock, the ramp is a reflecting wall, and on the high y border the shock passes at its speed: at the time of the fill, points the shock has passed hold the state behind it, others the state ahead of it. Corners are filled consistently, at every time, for every parameter set, degree and process grid (spectral-difference solvers).",
 ["inputs","histories","configurations"],"all parameters of the two problems, times, positions of points, degrees, process grids",
 "No test fills a boundary of these problems.",
 [D+"SDM_Boundaries_Functors_Jet.h",D+"SDM_Boundaries_Functors_Wedge.h","src/shared/problems/JetParams.h","src/shared/problems/WedgeParams.h",D+"SolverHydroSDM.h"],
 [("Udata ghosts","ghost degrees of freedom",D+"SolverHydroSDM.h"),("delta_x","distance the shock front has moved","src/shared/problems/WedgeParams.h")],
 [("make_boundary_sdm_jet / make_boundary_sdm_wedge",D+"SolverHydroSDM.h")],
 ["arrays with ghost cells after a fill, with the solver's time"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sch); assert len(x['title'])<=80
print(len(P))
