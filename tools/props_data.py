prop("C01", "Particle migration conserves particles and settles ownership",
     "After every time step, each macroparticle whose position lies inside the simulated area is held exactly once, by the one domain that owns the cell it is in, in its own specie and with its data unchanged by the hand-over; a particle leaves the simulation exactly when its position is outside the area. This holds whatever the number of domains, the size of the move, and the order in which domains are processed.",
     ["inputs", "histories", "schedules", "configurations"], "every set of particles, every sequence of moves, every grid/domain decomposition (including one domain and non-square domains) and every order of the per-domain sweeps",
     "the repository has no test of the domain decomposition: its compiled tests cover constants only; ownership is a relation between all domains after arbitrary histories",
     ["src/SMB.cpp", "src/domain.cpp", "src/specieP.cpp"], [("runaway collector: four parity passes, remove_if + push_back", "src/SMB.cpp: SMB::particles_runaway_collector"), ("cell numbering", "src/specieP.cpp: SpecieP::bind_cell_numbers")],
     "TLA+ model of the four-pass collector (all moves, all sweep orders, TLC) + trace validation of the real collector over enumerated (domain, target cell) pairs and random histories",
     "Exhaustive for one/two particles on 4x4 grids in the model; the real collector is run for every (home domain, target cell) pair on eight decompositions and on random histories under several thread orders, and every outcome is judged by TLC. Trusted: stand-ins for OpenMP (deterministic coroutines), logging, HDF5.")
prop("C18", "A time step does not depend on thread count or thread schedule",
     "Within one time step (loading, beam injection, field solution, particle motion and hand-over, current deposition) no two threads access the same shared data without synchronisation while one of them changes it, and the particles, fields and currents left by the step are the same for every number of threads and every thread schedule, up to rounding. This is required for runs whose particles respect the time-step limit of at most one cell per step.",
     ["schedules", "configurations"], "every schedule and number of OpenMP threads, every decomposition",
     "a test observes one schedule of one machine; races depend on which domains run concurrently and which particles cross at that moment",
     ["src/SMB.cpp", "include/algo/grid.hpp", "src/math/rand.cpp"], [("parity passes so that concurrently processed domains are not neighbours", "src/SMB.cpp: overlays, collector"), ("per-domain state", "src/domain.cpp")],
     "TLA+ model proving conflict-free footprints make a region schedule-independent (TLC) + every memory word touched by each logical thread of the real parallel regions recorded and judged by TLC; outcomes under different schedules compared",
     "The model check covers all 2- and 3-thread programs of 2 accesses; the footprints are those of the executed workloads (whole steps with PML, species and a beam crossing every border). Trusted: compiler instrumentation records every access; locks are identified only as held/not held.")
prop("C06", "Each probe gets one frame per schedule period, in time order, none lost",
     "A run of N time steps leaves, in every probe's dataset, exactly one frame for each step whose number is a multiple of the probe's schedule, in time order: frame k holds step k*schedule. Steps are counted from time 0: a run that starts at a later time goes on with the numbers from there; frames of the time before are empty. Frames already written are not changed by later steps. This holds for every time step length, also for ones that are not exact in binary, for runs of any length, and for several probes with different schedules in the same run.",
     ["histories", "inputs", "configurations"], "every time-step length, run length, schedule and combination of probes",
     "the time is an accumulated floating-point sum, so a frame is lost or doubled only at particular step lengths and step numbers; no repository test runs the output",
     ["src/outController.cpp", "src/outWriter.cpp", "src/PiCoPiC.cpp"], [("step number and schedule test", "src/outController.cpp: OutController::operator()"), ("frame index", "src/outWriter.cpp: OutWriter::operator()")],
     "TLA+ model of steps and probe frames (TLC) + recorded frame counts and indices of the real output layer over long histories and of whole program runs, judged by TLC",
     "Real output code against an in-memory/file HDF5 stand-in; histories of up to 300 steps per time-step length, single steps of histories of up to 4e7 steps, whole runs of up to 600 steps, some of them with a later start. Time-step lengths are sampled. Beyond 7e7 steps the clock, a sum of steps, is off itself.")
prop("C07", "A probe frame is the requested part of the field, whatever the domains",
     "For every field or current component and every probe shape inside the grid, the written frame contains for each requested cell the value the owning domain holds for that cell and component at that step (for H the value at the time of E), at the place given by the cell's global coordinates relative to the probe's start: all requested cells, each from its owner, none twice from different sources, none left unwritten. It does not depend on how the area is cut into domains, and other probes in the same configuration do not affect it.",
     ["inputs", "configurations"], "every rectangle, column, row and dot inside the grid, every component, every decomposition and every set of simultaneous probes",
     "the frame is assembled from the intersections of the probe with each domain; errors show only when a border falls in a particular place relative to a domain border",
     ["src/outController.cpp", "src/outWriter.cpp", "src/outEngine/outEngineHDF5.cpp", "src/cfg.cpp"], [("intersection of probe and domain", "src/outController.cpp: init_datasets/constructor, src/outWriter.cpp"), ("hyperslab writes", "src/outEngine/outEngineHDF5.cpp")],
     "TLA+ model of tiling and indexing (TLC) + every small probe, and random ones, replayed into the real output layer with fields that name their cell; frames judged by TLC",
     "All rectangles/columns/rows/dots of five small decompositions (thorough; sampled in quick), random probes on larger ones, areas to 600 x 4 and 2 x 40000 (80000) cells. Trusted: the HDF5 stand-in implements hyperslab writes.")
prop("C04", "Walls confine plasma; only beams leave, and never through the axis",
     "A plasma particle never leaves the area: a particle that crosses a mirror plane (half a cell inside the axis, the outer wall and both ends) is put back at its mirror image with the velocity component along that direction reversed and everything else unchanged, as often as needed, also exactly on the axis and at exact cell borders, and every coordinate and velocity stays finite. Planes between domains reflect nothing. Beam particles are mirrored only at the axis and leave through the ends and the outer wall. Domains are at least two cells wide at the walls.",
     ["inputs", "histories", "configurations"], "every position and velocity allowed by the time-step limit, every domain of every decomposition, every history of steps",
     "each wall is handled by separate code for each domain position; exact boundary values and corner double reflections are missed by samples; the repository has no test of particle motion",
     ["src/specieP.cpp", "src/beamP.cpp", "src/SMB.cpp", "src/domain.cpp"], [("reflection", "src/specieP.cpp: SpecieP::reflect, src/beamP.cpp: BeamP::reflect"), ("walls of domains", "src/SMB.cpp: SMB::SMB")],
     "TLA+ model of movement, reflection and hand-over (TLC: confinement for all histories) + reflect() replayed on the lattice of positions around every domain and whole particle steps, judged by TLC",
     "Lattice of 1/8 cell up to 1.5 cells outside each domain on seven decompositions (sampled in quick for large ones), random whole steps with the fields off. Positions are dyadic so that doubles are exact.")
prop("C02", "Seams between domains are exact: nothing lost, doubled or left stale",
     "When the currents are exchanged between domains, every cell of the area ends, in the domain that owns it, with the sum of what all domains (including diagonal neighbours) deposited in that cell, each contribution exactly once; when the electric and magnetic fields are exchanged, every domain sees in the layer of cells around its own (corners included) exactly the values of their owners, and no owned value changes. This holds for every decomposition with domains at least four cells wide, square or not, every content and every order of the exchanges.",
     ["inputs", "configurations", "schedules"], "every content of the grids, every decomposition (any number of domains along each axis, non-square domains), every order of pairwise exchanges",
     "errors appear only where four domains meet, or with non-square domains; the grid tests of the repository use two square grids of equal values",
     ["src/SMB.cpp", "include/algo/grid.hpp", "include/algo/grid3d.hpp"], [("ghost exchange", "include/algo/grid.hpp: overlay_x, overlay_y"), ("order of exchanges", "src/SMB.cpp: current_overlay, field_e_overlay, field_h_overlay")],
     "TLA+ model of ghost layers and pairwise exchanges in any order (TLC, unit deposits, by linearity all deposits) + real exchanges of random integer grids judged by TLC",
     "Model: 2x2, 4x1 (thorough: 2x4, 4x4) domains with two ghost layers, every unit deposit and every pair order. Code: nine decompositions, random and sparse integer contents, several thread counts and orders.")
prop("C03", "Cutting the area into domains does not change the physics",
     "For the same initial fields and the same particles (position, velocity, weight), a run on an area cut into any number of domains gives, after every time step, the same electric and magnetic fields (at both half-steps) and currents in every cell and the same set of particles with the same positions, velocities and weights as a run on the undivided area, up to rounding. This holds with and without absorbing layers (also ones wider than a domain), for non-square domains at least four cells wide, for particles at and across borders and corners of domains, and for both current deposition schemes, for particles moving less than a cell per step.",
     ["inputs", "histories", "configurations"], "every initial content, every set of particles, every decomposition and any number of steps",
     "the repository has no test which runs more than constants; a defect shows only where a stencil, an absorbing layer or a particle path meets a border of domains",
     ["src/SMB.cpp", "src/maxwellSolver/maxwellSolverYee.cpp", "src/current/currentVB.cpp", "src/current/currentZigZag.cpp", "src/domain.cpp", "include/geometry.hpp"], [("field update with ghosts", "src/maxwellSolver/maxwellSolverYee.cpp"), ("global coordinates of a domain", "include/geometry.hpp, src/SMB.cpp: SMB::SMB"), ("deposition into ghosts", "src/current/currentVB.cpp, src/current/currentZigZag.cpp")],
     "TLA+ model of the two-stage stencil with ghosts on a cut area against the undivided one, domains in any order (TLC; unit contents, by linearity all) + real runs on cut and undivided areas compared step by step and judged by TLC",
     "Model: 2x2 and 3x1 (thorough: 3x2, 2x4) domains, 2-3 steps, every unit content. Code: eleven decompositions of four areas, three build variants (PML, no PML, zigzag), random fields and particles concentrated at cell borders, 4 (12) steps.")
prop("C05", "Current deposition conserves charge, node by node",
     "For any set of particle motions of less than one cell in a step (within a cell, across one or two cell borders, exactly along or exactly through borders and nodes, starting or ending exactly on them, next to the axis), the deposited radial and longitudinal currents satisfy the discrete continuity equation at every node of the area: what leaves a node through its faces equals the loss of charge that the moved particles cause at this node (ring-volume shape for the Villasenor-Buneman scheme, linear shape for the zigzag scheme), and the azimuthal current totals charge times azimuthal velocity. Contributions of particles add up; none is lost, doubled or overwritten by another particle or at a border of domains, and currents stay finite. Cell sizes along r and z may differ.",
     ["inputs", "configurations"], "every motion of every set of particles, every cell size, every decomposition, both deposition schemes",
     "the deposition has separate code for each topology of a motion (4, 7 or 10 nodes, strictly axial or radial, each direction); the repository has no test of it",
     ["src/current/currentVB.cpp", "src/current/currentZigZag.cpp", "src/SMB.cpp"], [("deposition of a path", "src/current/currentVB.cpp: rz_current_distribution, simple_current_distribution, strict_motion_distribution"), ("zigzag", "src/current/currentZigZag.cpp: current_distribution")],
     "TLA+ model of node charges changed only by face fluxes (TLC: continuity for all lattice walks) + real deposition for generated lattice motions of every topology, fluxes judged by TLC node by node",
     "Model: all walks of 4 (8) unit steps on a 1/2 (1/4) lattice. Code: 1/16-cell lattice, twelve kinds of motions, five decompositions with dz != dr, 2400 (36000) motions, resolution 1e-4 of the charge.")
prop("C14", "Probes of density, momentum, energy and temperature show the particles",
     "A density, momentum, energy or temperature probe of a specie shows, in every cell, the moment of all particles of that specie and only of it, as they are at that step: density times the volume of the ring around the node is the sum of the particles' weights by their ring-volume shape; momentum is the weighted mean momentum of a particle (gamma*m*v for fast particles), energy the energy of the weighted mean absolute momentum, temperature that of what remains after the mean directed momentum is removed. The frame does not depend on the decomposition (sums are completed over domain borders and corners before they are normalised), on other probes or their order, or on earlier steps; empty cells show zero and all values are finite.",
     ["inputs", "configurations", "histories"], "every set of particles of several species, every decomposition, every set and order of probes",
     "the moments share per-specie work arrays between probes and are assembled over domain borders; errors show only for particular combinations of probes and borders; the repository has no test of them",
     ["src/specieP.cpp", "include/algo/weighter.hpp", "src/outController.cpp", "src/phys/rel.cpp"], [("moments of a domain", "src/specieP.cpp: calc_density, calc_momentum_w, calc_momentum_abs_w, normalize_*"), ("assembling over domains", "src/outController.cpp: init_datasets")],
     "TLA+ definition of the moments on top of the particle shape of the Charge model; frames written by the real output layer judged cell by cell by TLC",
     "1/8-cell lattice positions concentrated at corners of domains, three species, slow velocities with integer moduli and fast ones with a rational gamma (ten speeds from 0.18c to 0.88c in eight directions, one or mixed in a frame), six decompositions and large or crowded areas, random subsets and orders of probes, two steps. Moments of cells with less than 0.2 of a particle are checked only to be finite.")

prop("C16", "Particles move by the Lorentz force where they are, and straight without one",
     "Every particle is pushed by the Lorentz force of the electric and magnetic field at its position: the momentum changes by q(E + v x B)dt to second order in the step, with the sign of the charge and the mass of its specie; a magnetic field alone never changes the speed nor the velocity along the field, whatever its strength; an electric field alone adds exactly qE dt to the momentum; without fields nothing changes. The field at a particle is interpolated from the nearest nodes of each component only: a uniform field is felt exactly as it is everywhere, a field of one node is felt only within one cell of that node and only in its own component. Without fields a particle flies straight in space: its distance from the axis, radial and azimuthal velocity follow from the straight line and its angular momentum is kept over any number of steps. This holds for every selectable pusher (adaptive, relativistic and non-relativistic Boris, Vay, Higuera-Cary).",
     ["inputs", "configurations", "histories"], "every position, velocity, charge and mass, every field, every pusher",
     "the repository has no test of the pushers or of the interpolation; errors hide in single components, in one pusher, on one side of a half-cell or for fast particles only",
     ["src/pusher/pusherBoris.cpp", "src/pusher/pusherVay.cpp", "src/pusher/pusherHC.cpp", "include/maxwellSolver.hpp", "src/specieP.cpp"], [("pushers", "src/pusher/*.cpp"), ("interpolation", "include/maxwellSolver.hpp: get_field_e, get_field_h"), ("turning to the half-plane", "src/specieP.cpp: back_position_to_rz, back_velocity_to_rz")],
     "TLA+ definition of free flight in angle-free quantities (model-checked for self-consistency) and of the Lorentz force in scaled integers; velocities and positions of the real pushers and motion judged by TLC",
     "Free flights: integer velocities and 1/64-cell positions, five steps, four decompositions, agreement to 1e-2 of a 1/64 cell squared. Pushes: random lattice of position, velocity up to 0.95c in all, fields small enough for the second-order law (3 per cent), kicks of up to 0.3c of fast particles (3 per cent of the rotation alone), and magnetic fields up to b=3 for the invariants (1e-9). Orbits: six radians in a uniform axial field.")
prop("C19", "Fields obey the discrete Maxwell equations in a metal box",
     "In every time step the electric field grows by dt/eps0 (curl H - J) and then the magnetic field falls by dt/mu0 curl E with the new E, on the staggered nodes of the cylindrical grid, for every component, every node, every row of domains (radius counted from the axis of the whole area) and on the axis. The tangential electric field on the left, right and outer wall stays zero. No magnetic charge appears, curl H brings no electric charge, a node acts only on its neighbours within a step, and in an empty box without absorbing layers the energy stays bounded over any number of steps. Absorbing layers act only inside their width, only damp (the energy never grows in an empty box), and do not change the field elsewhere.",
     ["inputs", "histories", "configurations"], "every field and current, every node, every decomposition, any number of steps, every choice of absorbing layers",
     "the update has separate code for walls, axis and interior of each domain; the repository has no test of the solver",
     ["src/maxwellSolver/maxwellSolverYee.cpp", "include/maxwellSolver.hpp", "src/SMB.cpp", "include/geometry.hpp"], [("field update", "src/maxwellSolver/maxwellSolverYee.cpp: calc_field_e, calc_field_h"), ("absorbing layers", "src/maxwellSolver/maxwellSolverYee.cpp: constructor and sigma")],
     "TLA+ definition of the staggered curls with their laws (no monopole, charge conservation, locality; TLC over every unit field, by linearity all) + every node of recorded steps of the real solver judged by TLC",
     "Small-integer fields on seven decompositions of areas of 8-16 cells, with and without absorbing layers, single-node fields at borders; free runs of 120 (400) steps for the energy. Trusted: a field of a node scales linearly.")
prop("C17", "The reader library gives back the data of the run it is asked for",
     "For every file a run leaves, the python reader answers a question about a probe in the configuration with the values the asked cells had at the asked frame, unchanged, and of the right size: whole rectangles, columns, rows and dots, any column, row or dot of a rectangle (counted from its corner), and any range of frames, by default all there are. The same value is found whichever probe, range or part it is read through, by file or directory name, with or without verbose output or the cache. What is not in the file - an absent probe, a frame after the last or (for columns, rows, dots) before the first, a place outside of the rectangle - is an error, never data. The reader's description of the run (geometry, absorbing layers, time, species, beams, probes, output) is the one of the configuration, the frame number and the time of a frame (the nearest one, for a time between), a row and its radius, a column and its longitude are inverse to each other, values kept in the cache come back as they were, also in a later session, and loading and reading make no files.",
     ["inputs", "configurations", "histories"], "every set of probes, every frame and range, every part of a rectangle, every length of the run",
     "the library has no tests and was changed together with the layout of the file without ever being run on all of the shapes",
     ["lib/python/picopic/h5_reader.py", "lib/python/picopic/reader.py", "lib/python/picopic/meta_reader.py", "lib/python/picopic/tinycache.py", "src/cfg.cpp", "src/outEngine/outEngineHDF5.cpp"], [("questions", "lib/python/picopic/h5_reader.py, reader.py"), ("description", "lib/python/picopic/meta_reader.py"), ("layout of the file", "src/cfg.cpp: init_probes; src/outEngine/outEngineHDF5.cpp")],
     "TLA+ model of a growing file and of questions about it (TLC: what the reader finds in the stored sequence is what the question denotes) + answers of the real library to thousands of questions about files the real program wrote judged by TLC",
     "Model: every probe of a 2x2 (2x3) area, every question at every moment. Code: 6 (24) runs of the program with random probes of all shapes and kinds, up to 13 steps; the values of the file are replaced by codes of component, step and cell with a part only doubles keep. h5py is not installed: a stand-in reads the file of the stand-in of HDF5. Negative numbers of frames of rectangles are not judged. Half of the runs start later than 0. Plots (matplotlib is absent) are out of scope.")
prop("C15", "A run makes every time step whole and keeps Gauss's law",
     "In every time step of a run each of the phases happens once, everywhere and in order: the electric field grows by the curl of the magnetic field and by the currents of exactly the motion of the step before, then the magnetic field follows the new electric field, in every domain at once, then the particles move and their motion gives the currents of the next step. Therefore Gauss's law is kept: at every node inside of the area, in every step, the flux of the electric field out of the node has changed since the start by exactly the charge that particles have carried there, near the axis, at borders of domains and after reflections too. Fields are silent before the first step. Without beams no macroparticle and no weight appears or vanishes, each is held once, by the domain it is in. A run makes as many steps as the configuration asks for. This holds for every decomposition, number of threads, pusher, way of placing and beam.",
     ["histories", "schedules", "configurations"], "every run of the program: plasma, beams, decomposition, threads, length",
     "each phase may be right alone while the step is not: a domain left out, an old current not cleared, an order swapped, a ghost column summed twice; the repository has no test of a step",
     ["src/PiCoPiC.cpp", "src/SMB.cpp", "src/domain.cpp", "src/current/currentVB.cpp", "src/maxwellSolver/maxwellSolverYee.cpp", "src/specieP.cpp"], [("main loop", "src/PiCoPiC.cpp: main"), ("phases over all domains", "src/SMB.cpp: solve_maxvell, advance_particles, solve_current"), ("phases of a domain", "src/domain.cpp")],
     "TLA+ design of the step (fields, motion, currents, charge; Gauss's law checked by TLC for every path and every loop of the field) + every step of runs of the real program, seen from inside of its output phase, judged by TLC",
     "Design: paths of 2 (3) steps on a 2x2 area. Code: 12 (69) runs of 25 (60) steps on areas of 6-16 cells, six decompositions, 1 or 3 threads, with absorbing layers, beams, different temperatures and densities, all pushers. Gauss's law to 8e-5 of the charge of the largest macroparticle; away from absorbing layers and, with beams, from the two columns where they enter. Zigzag deposition is not exact on a cylinder and is judged in C05 only.")
prop("C08", "Beams enter bunch by bunch, on schedule, with the given charge",
     "Every beam is injected at the left wall, within its radius, exactly at the time steps of its bunches: bunch k from start + k(length+distance)/velocity for length/velocity, also when bunches follow each other without a gap, when several beams run together, and in every row of domains that the beam covers, whatever the decomposition. Particles enter evenly over the way of a step and over the radius, move along the axis at the given velocity, carry weights proportional to their radius such that the density is the given one, and their number per row follows the beam's share of macroparticles without drifting from it. Nothing is injected outside the bunches or away from the left wall.",
     ["histories", "inputs", "configurations"], "every start, length, distance, number of bunches, radius, velocity and density, every decomposition and combination of beams, every step",
     "the schedule is kept by each domain separately and errors show only from the second bunch on, in upper rows, or with particular gaps; the repository has no test of beams",
     ["src/beamP.cpp", "src/SMB.cpp", "src/domain.cpp", "src/cfg.cpp"], [("bunch schedule", "src/beamP.cpp: BeamP::BeamP, BeamP::inject"), ("call per domain", "src/SMB.cpp: inject_beam, src/domain.cpp: inject")],
     "TLA+ model of the schedule with a bunch counter per row (TLC: every step of every window is used exactly once) + particles injected by the real code over whole schedules judged by TLC step by step",
     "Model: windows in quarter steps, gaps from zero, 2 rows. Code: random beams (1-3 at once, gaps from zero, aligned and not aligned with the steps, some before the clock starts) on six decompositions, 40 steps, cell sizes dz/dr of 1/2, 1 and 2. The bunch is at least as long as the way of a step. Evenness is judged statistically (six deviations).")

prop("C13", "Plasma starts with the given density, temperature and even cover",
     "When a run starts, every plasma specie fills the whole area between the walls, each place by exactly one domain and with a full set of macroparticles per domain (half a cell away from the axis and walls). Real particles in a domain equal the density (linear from left to right) times the volume of its ring, so the plasma is the same however the area is cut; the weight of a macroparticle is proportional to its radius and the particles cover radius and length evenly. Every particle is filed in the cell it is in. With thermal velocities every specie is isotropic, drifts nowhere, moves below the speed of light and has the mean kinetic energy of the Maxwell-Juettner distribution of its temperature (3/2 T when cold) within 12 per cent and noise; the rectangular and eigen distributions (cold plasma) take every component between plus and minus, or exactly at, the speed of the temperature. The spatial guarantees hold for the flat, random, regular and centered placements.",
     ["inputs", "configurations"], "every temperature, mass, density, number of macroparticles, area and decomposition, and every placement the build offers",
     "a density or energy off by a factor shows in no single particle; the repository has no test of the loading",
     ["src/specieP.cpp", "src/math/maxwellJuettner.cpp", "src/math/rand.cpp", "src/SMB.cpp", "src/cfg.cpp", "src/domain.cpp"], [("placement and weights", "src/specieP.cpp: rectangular_*_placement, set_weight"), ("velocities", "src/specieP.cpp: thermal_velocity_distribution, src/math/maxwellJuettner.cpp")],
     "TLA+ definition of the share of each domain (TLC: shares are contiguous and sum to the same plasma for every decomposition) + loads of the real code in four builds judged domain by domain and specie by specie by TLC",
     "Model: areas up to 12 (16) cells, every decomposition. Code: six decompositions per build, temperatures from 0.02 eV to 400 keV. Cover is judged by quarters of radius and of length and by their 16 joint parts; velocities by moments (six deviations).")

prop("C09", "Signals never damage the data: pause, continue, stop at any moment",
     "Whenever signals arrive: SIGUSR1 pauses the run at the end of the step in progress with the data file closed, complete and readable, and nothing is written while it is paused; SIGUSR2 continues into the same file, and the finished run leaves the same data as one that was never paused; of several requests the last one counts, and superfluous ones change nothing. A termination signal (INT, TERM, QUIT, PIPE, TSTP), also while paused, ends the program with the number of the signal, with the file closed and holding exactly the frames of the steps made; a fault signal ends it at once, the frames of complete steps kept. No access goes through a closed file and no file is closed twice. A data file that is already there is never opened, changed or replaced: the start is refused; when the file is gone at the continuation, the program stops and makes no other one.",
     ["schedules", "fault points", "histories"], "any sequence of signals, each at any access to the data file, any log message, any beginning or end of a parallel phase, any moment of the pause; threads; existing and removed files",
     "an error shows only when a signal comes at a particular point; the repository has no test of the program",
     ["src/PiCoPiC.cpp", "src/outController.cpp", "src/outWriter.cpp", "src/outEngine/outEngineHDF5.cpp"], [("handler and main loop", "src/PiCoPiC.cpp: signal_handler, main"), ("handing over the file", "src/outController.cpp: OutController::set_file")],
     "TLA+: abstract rules (Life) and the handler, flags, loop and handles of the program (LifeImpl), checked by TLC to refine the rules under every interleaving of signals, with liveness + the real program run with signals at every point, histories judged by TLC against the rules",
     "Model: 3 (4) steps of 2 (3) writes, 3 (5) signals. Code: 3 configurations of 4-5 steps, about 1400 (12000) runs. Signals are raised at the points named, not between single instructions; HDF5 is a stand-in that records use of closed files.")

prop("C12", "A run split over MPI processes is the run in one process",
     "When the area is split along z over any number of MPI processes (a divisor of the domains along z, parts of at least four cells), every process reaches the end of every step whether the MPI library keeps the messages it is given to send or lets the sender wait, and in whatever order processes go on: no deadlock, no message left, lost or received as something else than was sent. After every step electric and magnetic fields (at both half-steps) and currents of every cell, and the particles (each held once, by the process and domain it is in, with its specie, position, velocity and weight) are those of the run in one process, beams leaving through the outer wall or at the border of processes too; the plasma at the start is the same.",
     ["schedules", "configurations", "inputs"], "numbers of processes, cuts into domains, sends that wait or do not, orders in which processes go on, particles at and across borders of processes",
     "deadlocks and stale borders need a particular library, message size or place; the repository has no test of MPI builds",
     ["src/SMB.cpp", "include/SMB.hpp", "src/domain.cpp", "include/specieP.hpp"], [("hand-over of particles", "src/SMB.cpp: SMB::particles_runaway_collector (ENABLE_MPI)"), ("exchange of borders", "src/SMB.cpp: current_overlay, field_e_overlay, field_h_overlay (ENABLE_MPI)"), ("layout of messages", "include/SMB.hpp: MPICommOverlay")],
     "TLA+ model of the messages of a step (TLC: every interleaving, every choice of the library to keep a message or not: no deadlock, termination, exact borders) + the real code of several processes run as fibers over an MPI stand-in, its messages and results judged by TLC",
     "Model: 2-4 (5) processes. Code: 1-8 processes, 2-10 domains along z, 16-60 steps. The MPI library is a stand-in (blocking, nonblocking and combined point-to-point calls, barrier, derived types); the cutting of the area in main and parallel HDF5 output are not part of it (the driver cuts as main does).")

prop("C10", "An error of the data file never passes silently",
     "Whenever an operation on the data file fails (no space, no access, the file gone: making or opening the file, a group, a dataset, metadata, room for a frame, the write itself, once or from then on), the run either ends with a nonzero status, with the file closed and every frame of the steps completed before still in it, or nothing is lost: no frame of a later step is written while one of an earlier step is missing, and a run that ends with status 0 leaves every frame, every value and all metadata in the file. This holds also when pauses, continuations and termination signals come before or after the error.",
     ["fault points", "histories"], "every operation on the data file failing, once or for good, in runs with and without signals",
     "errors of the file system do not happen in tests; the repository has none for output",
     ["src/outEngine/outEngineHDF5.cpp", "src/outController.cpp", "src/outWriter.cpp", "src/PiCoPiC.cpp"], [("operations", "src/outEngine/outEngineHDF5.cpp"), ("making and reopening", "src/PiCoPiC.cpp: main")],
     "TLA+: Life and LifeImpl with failing operations, refinement checked by TLC + the real program run with every operation failing in turn, histories and final contents judged by TLC",
     "Model: as C09. Code: 3 configurations of 4-7 steps, every operation (40-130 of them), about 830 (3200) runs. Failures are exceptions of the kinds HighFive throws; a failure inside the closing of the file is not modelled.")

prop("C11", "A configuration is refused, or run exactly as it is written",
     "A configuration that cannot be run as written is refused with a message before anything is simulated: a missing, cut or malformed file or value, two species or two beams with one name (or a beam whose name in the data, beam_<name>, is that of a specie), no electrons or no ions, numbers of domains that are neither 1 nor even or do not divide the grid evenly, probes of unknown shape, with ends out of order or outside the area, with a schedule below one step, or two probes with one place in the data, a number that has to be whole and is not (cells, domains, masses, charges, bunches, places and schedules of probes, ratio of sizes) or that no run can be made of (a time step, size, cell count, mass, or beam's velocity, length or radius that is not above zero, a beam as fast as light, a negative density, temperature, distance, conductivity or amount, a layer beyond the area). Every other configuration runs, without a crash, and exactly as written: every specie and beam, under its own name and with an id of its own whatever the names, with its mass and charge; the area cut into equal domains that together hold every cell once; start, time step and end as given; densities, temperatures, absorbing layers and bunches as given; macroparticles shared between species (a claim of the whole grid each) and beams (their bunches in cells times the ratio of sizes). A probe of a quantity or specie that does not exist writes nothing and changes no other probe.",
     ["inputs", "configurations"], "every configuration file: grid, decomposition, names, probes, and any way to damage the file",
     "the errors show for particular names, numbers of cells or combinations of entries only; the repository has no test of configurations",
     ["src/cfg.cpp", "include/cfg.hpp", "include/geometry.hpp", "src/SMB.cpp", "src/outController.cpp", "src/algo/common.cpp"], [("reading and refusal", "src/cfg.cpp: check_values, init_*, method_limitations_check"), ("ids", "src/cfg.cpp: unique_id"), ("cutting", "src/SMB.cpp: SMB::SMB")],
     "TLA+ model of the reading of a configuration (TLC: ids stay apart for every hash, what is not refused is cut evenly, nothing else is refused) + valid and damaged configurations read and run by the real program, judged by TLC",
     "Model: grids to 4 (8) cells, 0-4 domains, 3 names over 4 hash values. Code: about 170 (1000) configurations, each with one unusual point; what the program has built (species, beams, layers, clock) is compared with the file.")

prop("C20", "Coulomb collisions act within a cell, lose nothing and leave nobody out",
     "With one of the schemes of Coulomb collisions built in (TA77S, SK98, P12), the collisions of a step change nothing but velocities, and only those of particles that have a collision partner in their own cell: a particle alone in its cell keeps its velocity, whatever other cells hold or the cell held before; velocities stay numbers below the speed of light. With SK98 and P12, in every cell that holds electrons and ions (none of the kinds entirely at rest) each of them takes part, also when neighbouring cells are empty, and for particles of equal weight the cell has (relativistically) the same total momentum and energy after as before. With TA77S, momentum and energy of the electrons and of the ions of a cell are each kept, for any weights, with three or more particles of each that do not all have one velocity, and the mean of 1-cos of the angle by which electrons are deflected by ions and by each other is the one of the Takizuka-Abe distribution for any weights, while meetings in the rest frame of the pair change no speed. With P12, the mean of 1-cos of the angle by which ions (of equal density) and electrons deflect electrons is the one the formula of the scheme gives for the density of the cell, the Coulomb logarithm, charges, masses and time step, in every cell of every domain, however the area is cut. Scope: plasmas of the species electrons and ions.",
     ["inputs", "histories", "configurations"], "any number of particles of each kind in each cell, empty cells among them, velocities, weights, masses and charges of ions, cuts into domains, cells of any shape, what the cell held in earlier steps",
     "pairing depends on how many of each kind a cell holds, rates on the cell and domain; results are random, so only sums and means can be judged; the repository has no test of collisions (they did not compile)",
     ["src/collisions.cpp", "src/collisions/collisionsTA77S.cpp", "src/collisions/collisionsSK98.cpp", "src/collisions/collisionsP12.cpp", "include/collisions.hpp", "src/domain.cpp"], [("pairing", "src/collisions/*.cpp: collide"), ("one meeting", "src/collisions/*.cpp: collide_single"), ("lists of a cell", "src/collisions.cpp: sort_to_cells, clear"), ("density of a cell", "src/collisions.cpp: get_el_density, geometry_cell_volume")],
     "TLA+ model of pairing and exchange in a cell (TLC: every particle takes part, sums kept, for every number of both kinds) + cells before and after collisions of the real code in three builds judged by TLC; mean deflections compared with theory in TLC",
     "Model: 0-9 particles of each kind, every exchange of 0-2 units among up to 3 (4) of each. Code: about 350 (1000) cells per scheme with 0-40 particles of each kind, one or two steps; 13 (16) rates of 15000 (40000) pairs (P12) and 7 (9) of 40000 (100000) electrons (TA77S), within about 5%. Not claimed: rates of SK98, with P12 those of ions meeting ions, of unequal densities or weights.")
