"""The property table; tools/gen_meta.py writes properties.jsonl and MANIFEST.json from it."""
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=None, technique="", note="", level="proof",
         hook_needed=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, technique=technique, note=note, level=level))


prop("P01", "Every quantity is up to date whenever it is read",
     "Whenever a quantity is read, through any handle, slice or view however long it has been held, the value is what its "
     "definition gives for the current values of everything it depends on, whatever was written before and in whatever order, and "
     "linked representations of one quantity always agree with the one written last. Writing by hand to a quantity that is "
     "computed is refused and leaves its value as it was. Nothing is recomputed unless something it depends on has changed.",
     ["inputs", "histories"],
     "all dependency graphs, all interleavings of writes and reads, all values",
     "a missed invalidation shows only for a particular order of writes and reads on a particular graph; tests follow one order",
     ["ipi/utils/depend.py"],
     [("invalidation", "depend_base.taint / _taint_synchro"), ("lazy recomputation", "depend_base._refresh / update_auto"),
      ("views", "depend_array.__getitem__ / __setitem__ / reshape"), ("piping", "dpipe")],
     technique="graph invariant (a stale node has only stale dependants; a current node equals its definition) proved preserved by each "
     "real operation against the contract of its neighbours, plus symbolic write/read contracts for uninterpreted definitions; sampled "
     "histories as a bounded complement",
     note="concurrent writers are outside the contract; histories longer than one step follow from the invariant and are sampled")

prop("P07", "Ring-polymer mode transforms and bead contraction are exact",
     "Transforming bead coordinates of a ring polymer to normal modes and back returns the same coordinates, preserves "
     "lengths, and diagonalises the ring (or open-chain) springs with the listed frequencies, for every implementation "
     "of the transform and with any atoms open. Contracting a path to another number of beads and expanding quantities "
     "back keep the centroid and the slowest modes, are adjoint to each other, and treat only open atoms as open. "
     "Writing either the bead or the mode picture of a bound system updates the other one.",
     ["inputs", "configurations"],
     "all coordinates, any number of atoms, closed and open paths, all listed bead numbers and contraction pairs",
     "tests sample a few coordinates and bead numbers; the identities must hold for every path, including open atoms "
     "together with contraction, which no test covers",
     ["ipi/utils/nmtransform.py", "ipi/engine/normalmodes.py"],
     [("mode matrices", "nmtransform.mk_nm_matrix / mk_o_nm_matrix"), ("contraction", "nmtransform.nm_rescale"),
      ("FFT transform", "nmtransform.nm_fft"), ("bead/mode synchronisation", "NormalModes.bind")],
     technique="contracts on the real functions, discharged by symbolic execution to a term normal form (any number of "
     "atoms); bounded runs for the FFT",
     note="bead numbers are enumerated; numpy.fft is covered by bounded concrete comparison only")

prop("P08", "Free ring-polymer motion is exact, reversible and energy-conserving",
     "The spring energy and spring forces of the beads are those of harmonic springs of constant m (P kB T / hbar)^2 between "
     "neighbouring beads, with the closing spring missing exactly for open paths. The free ring-polymer step (exact and "
     "Cayley, any fictitious mode masses, closed or open) conserves the energy of every internal mode, leaves the centroid "
     "alone and is undone by reversing momenta; the exact one is the harmonic flow and the Cartesian one is a velocity-Verlet "
     "step under the springs. Requested mode frequencies are the ones the mode masses produce, and kinetic energy and "
     "kinetic stress use those masses.",
     ["inputs", "configurations"], "all positions, momenta, masses, temperatures, time steps and any number of atoms",
     "conservation and reversibility are statements about every state and every step size; the regression tests compare a "
     "few printed numbers of short runs",
     ["ipi/engine/normalmodes.py"],
     [("propagators", "NormalModes.get_prop_pq / get_o_prop_pq / free_qstep / free_babstep"),
      ("springs", "NormalModes.get_vspring_and_fspring"), ("mode masses", "NormalModes.get_nmm / get_o_nmm / get_dynm3"),
      ("kinetic energy", "NormalModes.get_kins / get_kstress")],
     technique="contracts on the bound real objects, symbolic execution to a term normal form plus z3",
     note="bead numbers 1..6 enumerated; everything else symbolic")

prop("P09", "Time integration is the declared symmetric splitting",
     "One molecular-dynamics step applies exactly the nested multiple-time-step velocity-Verlet sequence requested in the "
     "input, with the thermostat placed as the chosen splitting (OBABO or BAOAB) says and every substep time adding up to one time "
     "step, for any forces. Without a thermostat the step is undone exactly by reversing momenta; a constrained centroid never moves. "
     "Bias potentials and Hamiltonian weights push the atoms with the same weights with which they enter the conserved "
     "quantity, which is the sum of all the energies in the system.",
     ["inputs", "configurations"],
     "all forces (arbitrary functions of the configuration), states, time steps, atom numbers; enumerated bead numbers and "
     "multiple-time-step patterns",
     "a misplaced or missing substep changes trajectories only at higher order, so the regression thresholds of short runs "
     "do not see it; unusual nesting patterns and weights are never tested",
     ["ipi/engine/motion/dynamics.py", "ipi/engine/ensembles.py"],
     [("nested propagation", "NVEIntegrator.mtsprop / mtsprop_ba / mtsprop_ab"), ("time steps", "DummyIntegrator.get_qdt/get_pdt/get_tdt"),
      ("thermostat placement", "NVTIntegrator.step"), ("conserved quantity", "Ensemble.get_econs / get_lpens"),
      ("bias", "Ensemble.bind, NVEIntegrator.pstep")],
     technique="functional contract: one real step equals the textbook propagator for an uninterpreted force, proved by "
     "symbolic execution to a term normal form for any number of atoms",
     note="multiple-time-step patterns and bead numbers enumerated")

prop("P10", "Constraints hold: fixed atoms never move, a fixed centre of mass stays put",
     "Atoms or single degrees of freedom declared fixed keep their positions, and (when their beads start together) carry no momentum, in molecular dynamics under any "
     "forces, thermostat, noise and splitting, and in every geometry optimiser. When the centre of mass is fixed its momentum is removed "
     "exactly, without touching relative motion, and the energy removed is booked in the conserved quantity. The number of constrained "
     "degrees of freedom used by thermostats and temperature estimators matches the constraints.",
     ["inputs", "configurations"],
     "all forces, states, noises, atom numbers and every subset of fixed degrees of freedom",
     "a leak of momentum into fixed atoms needs a particular combination of thermostat, splitting and subset, and is "
     "a small drift in the few runs that tests compare",
     ["ipi/engine/motion/dynamics.py", "ipi/engine/motion/geop.py", "ipi/utils/mintools.py"],
     [("momentum constraints", "DummyIntegrator.pconstraints"), ("constrained dof count", "Dynamics.get_fixdof"),
      ("optimiser steps", "geop.*Optimizer.step, mintools.*"), ("thermostats", "Thermostat.bind fixdof")],
     technique="contracts on the bound real integrators with a symbolic subset of fixed degrees of freedom (ghost set), "
     "symbolic execution to a term normal form; bounded runs for the optimisers' line searches",
     note="line-search optimisers are bounded; fixed atoms of a path must start with their beads together because the free ring-polymer "
     "step ignores fixed atoms")

prop("P11", "Thermostats keep the canonical distribution and balance their heat exactly",
     "Every thermostat leaves the Maxwell-Boltzmann distribution at its temperature unchanged, with the friction law it documents. "
     "The energy it takes from the system is booked exactly, for any noise and any state, so that the conserved quantity does not change. "
     "Path-integral thermostats act on normal modes at P times the temperature with the per-mode times of the method, and constrained "
     "degrees of freedom and a fixed centre of mass reduce the degrees of freedom of global ones.",
     ["inputs", "configurations"], "all momenta, masses, noises, temperatures, time constants, time steps and numbers of atoms",
     "sampling correctness is invisible in short regression trajectories, whose reference values are regenerated from the code itself",
     ["ipi/engine/thermostats.py"],
     [("propagator", "ThermoLangevin.get_T/get_S/step"), ("stochastic rescaling", "ThermoSVR.step"), ("mode thermostats", "ThermoPILE_L/G.bind"),
      ("generalized Langevin", "ThermoGLE.get_T/get_S/step"), ("combinations", "MultiThermo, ThermoFFL, ThermoCL")],
     technique="contracts on the real step functions with noise as free variables: T T' + S S' fluctuation-dissipation and energy-balance "
     "postconditions proved by symbolic execution to a term normal form",
     note="matrix exponential and square root of generalized Langevin equations are under assumed contracts, checked by bounded runs")

prop("P12", "Barostats: consistent piston energy, force and flow",
     "At constant pressure or stress the piston is pushed by the difference of internal and external stress plus the entropic term, scales cell and "
     "centroid by the exact flow of its velocity, and its kinetic, elastic and entropic energies are part of the conserved quantity. Without thermostats "
     "a step is undone by reversing all momenta and the conserved quantity drifts only as the square of the time step, "
     "with multiple time steps, bias potentials and fixed cell components; fixed components and a fixed volume do not change. "
     "The atom and cell thermostats balance their heat exactly.",
     ["inputs", "configurations"], "all forces and virials, states, cells, pressures, stresses, masks and numbers of atoms",
     "wrong stress components or a missing energy term show only in anisotropic, biased or masked cells, which reference runs do not "
     "cover or whose references come from the same code",
     ["ipi/engine/barostats.py", "ipi/engine/motion/dynamics.py"],
     [("piston force", "BaroBZP/BaroRGB/BaroMTK.pstep, Barostat.stress_mts"), ("flow", "BaroBZP/BaroRGB/BaroMTK.qcstep"),
      ("energies", "get_pot, get_cell_jacobian, get_ebaro")],
     technique="contracts on the bound real barostats proved by symbolic execution to a term normal form; reversibility and drift as bounded runs",
     note="matrix exponentials (anisotropic flow), reversibility and drift order are bounded; Suzuki-Chin pressure uses finite differences and only its energies are covered")

prop("P13", "The simulation cell is geometrically consistent",
     "The inverse cell and volume always belong to the current cell, however it was changed. Conversion between cell matrices and side lengths with angles, "
     "in input and output, is exact in both directions. Wrapping into the cell and minimum-image vectors move atoms only by whole "
     "lattice vectors to the image with fractional coordinates within one half.",
     ["inputs"], "all upper-triangular cells with positive diagonal and all positions",
     "tests use a few cells, mostly orthorhombic", ["ipi/engine/cell.py", "ipi/utils/mathtools.py", "ipi/inputs/cell.py", "ipi/inputs/initializer.py"],
     [("inverse and volume", "Cell.get_ih / get_volume"), ("lengths and angles", "mathtools.abc2h / h2abc"), ("periodic images", "Cell.array_pbc / apply_pbc / minimum_distance")],
     technique="contracts on the real functions proved by symbolic execution to a term normal form (trigonometric identities included)",
     note="general (not upper-triangular) cells and input parsing are bounded")

prop("P14", "Units are converted consistently everywhere",
     "Every documented unit with every decimal prefix converts to internal units with its physical value, and back exactly; a unit that does not belong to the kind of quantity is refused. "
     "Numbers and arrays read from input with units, stored and written again denote the same quantity. Output requests are understood as the name, "
     "units and arguments the user wrote.",
     ["inputs"], "all numbers and arrays, all units and prefixes, all spellings of output requests",
     "tests convert a handful of units", ["ipi/utils/units.py", "ipi/utils/inputvalue.py", "ipi/engine/properties.py"],
     [("conversion", "units.unit_to_internal / unit_to_user"), ("input values", "InputValue/InputArray.store/fetch/parse"), ("output requests", "properties.getall / getkey")],
     technique="contracts on the conversion functions: values symbolic, units and prefixes enumerated exhaustively; text processing as bounded runs",
     note="text parsing is bounded")

prop("P03", "What is exchanged with a force client arrives bit for bit",
     "Positions, cell, energy, forces, virial and extra text exchanged with a client over a socket, shared memory or MPI arrive bit for bit and in the "
     "right place, whatever the number of atoms, the selection of active atoms, the text and the way the network cuts the byte stream into pieces or delays it. "
     "A client that disconnects in the middle of an exchange, or sends something invalid, is reported as such at once and never yields a partial result, an endless "
     "wait or an endless loop. The bundled Python driver keeps to the same protocol.",
     ["inputs", "schedules", "fault_sequences"],
     "all messages, all cuts and delays of the byte stream, all points of disconnection",
     "on a local machine a message nearly always arrives in one piece, so tests never see a cut or a disconnection in the middle",
     ["ipi/interfaces/sockets.py", "ipi/interfaces/mpi.py", "ipi/interfaces/utils.py", "drivers/py/driver.py"],
     [("receiving", "DriverSocket.recvall / recv_msg"), ("protocol", "Driver.initialize / sendpos / getforce / get_status"),
      ("shared memory", "Driver shared-memory path"), ("MPI", "interfaces/mpi.py"), ("client side", "drivers/py/driver.py run_driver")],
     technique="contract of each exchange function run against every cut, delay and end-of-stream position of generated messages (bounded stand-in: byte streams "
     "and sockets are outside the verifier)", level="exploration",
     note="bounded: message contents are sampled, cut points, timeouts and end-of-stream positions of each are exhaustive")

prop("P04", "Every force request is answered exactly once, whatever clients do",
     "Every queued force request is sent to one client at a time and its answer is the one computed from its own positions; if the client fails, times out or "
     "disconnects, the request goes to another client and is neither lost, answered twice nor mixed up with another one. Clients may come and go at any time without stopping "
     "the polling or leaving a request stuck while a healthy client is free. A replica goes to the client that served it before when the matching mode asks for it.",
     ["schedules", "fault_sequences", "histories"],
     "all orders of events between requests and clients, all failures of clients",
     "losing a request needs a failure at a particular moment of the exchange; tests run healthy clients only",
     ["ipi/interfaces/sockets.py", "ipi/engine/forcefields.py"],
     [("distribution", "InterfaceSocket.pool_distribute / _pool_distribute_select / dispatch_free_client"),
      ("completion", "InterfaceSocket.check_job_finished"), ("failures", "InterfaceSocket.pool_update / _requeue_disconnected"),
      ("queue", "ForceField.queue / release / _poll_loop")],
     technique="state invariant of the request pool checked after every real pool operation against the contract of a client (any outcome of every exchange), from generated "
     "consistent states and histories (bounded stand-in: threads and object identity are outside the verifier)", level="exploration",
     note="bounded: up to 4 requests and 3 clients, schedules and failures sampled; the lock matching mode waits for its client by design")

prop("P06", "Forces on the beads are the weighted sum of all force components",
     "The energy, force and virial of every bead are the sum over force components of weight times the provider's answer at the (contracted) beads, expanded back "
     "to all beads, and every multiple-time-step level sums its own share so that the levels add up to the total. The values read are those of the current positions, cell "
     "and weights, whatever happened before, including after copying the force object or handing known forces from one object to another, and what has not changed is not evaluated again. "
     "Extra quantities are combined in the same way, and the high-order (Suzuki-Chin) energies, forces and virials follow from the combined ones by the documented formulas.",
     ["inputs", "histories", "configurations"],
     "all answers of the providers, positions, cells, weights, numbers of atoms; all listed layouts of components and bead numbers",
     "wrong weights, contraction or stale parts appear only for several components together, on some beads, or after a particular order of changes",
     ["ipi/engine/forces.py"],
     [("components", "ForceComponent / ForceBead"), ("combination", "Forces.f_combine / pot_combine / vir_combine / extra_combine"),
      ("time-step levels", "MTSForces"), ("copies and transfers", "Forces.clone / transfer_forces / transfer_forces_manual"),
      ("Suzuki-Chin", "Forces.get_potssc / get_fsc_part_1 / get_fsc_part_2")],
     technique="contracts on the bound real force objects over providers that are arbitrary (uninterpreted) functions, proved by symbolic execution to a term normal form",
     note="bead numbers and component layouts enumerated; contraction by its own contract (P07); refusal of missing extras is bounded")

prop("P05", "Built-in force providers return exactly the energy, forces and virial",
     "A force request is a snapshot of positions and cell, restricted to the active atoms, and it is marked as done only when its final answer, with the energy offset subtracted once, is "
     "there. The built-in potentials (Lennard-Jones, harmonic, Debye crystal, Morse, double wells with or without bath or friction, spherical confinement, oscillating pairs, cavity photons) return the documented "
     "energy and forces that are minus its gradient, alone or in batches. Committees, weighted baselines, rotation averages and PLUMED biases combine the answers of their members "
     "by the documented formulas, with consistent forces and virials, and wait for all of them.",
     ["inputs", "schedules", "configurations"],
     "all positions, cells, parameters and answers of members; listed numbers of atoms, members and grids",
     "tests compare a few numbers of a few potentials; a force that is not the gradient, a lost offset or a wrong weight shows only for some parameters, members or timing",
     ["ipi/engine/forcefields.py", "ipi/pes/harmonic.py", "ipi/pes/morse.py", "ipi/pes/doublewell.py", "ipi/pes/bath.py", "ipi/pes/spherical_LJ.py", "ipi/utils/mathtools.py"],
     [("requests", "ForceField.queue / FFEval._eval_thread / FFDirect.poll"), ("potentials", "FFLennardJones / FFDebye / FFdmd / ipi.pes"),
      ("combination", "FFCommittee.gather / FFRotations.gather"), ("cavity", "PhotonDriver / FFCavPhSocket.queue"), ("PLUMED", "FFPlumed.evaluate / mtd_update")],
     technique="contracts on the real providers proved by symbolic execution to a term normal form; forces = minus gradient by symbolic differentiation of the energy term; "
     "threads, quadratures and PLUMED as bounded runs",
     note="numbers of atoms and members enumerated; publication order under threads, rotation grids, JSON committees, PLUMED (a stand-in library) and spherical confinement are bounded")
prop("P22", "Printed thermodynamic properties obey their documented formulas",
     "Every property and atomic quantity offered for output (energies, kinetic energies, temperatures, stresses and pressures, gyration radii, "
     "momentum-distribution, isotope and high-order estimators) has the value its documented formula gives for the current positions, momenta, "
     "cell and forces, for every choice of atoms, bead or mode, and is declared with the kind of quantity it is. Selections of atoms add up or "
     "average as documented, and constrained degrees of freedom are accounted for in temperatures. Asking for a property never changes the "
     "simulation or the value of another one.",
     ["inputs", "histories", "configurations"], "all coordinates, momenta, masses, cells, force fields, selections and earlier requests",
     "estimators are formulas over all coordinates, and tests compare a few printed numbers of fixed runs where e.g. the cell never changes",
     ["ipi/engine/properties.py", "ipi/utils/mathtools.py"],
     [("properties", "Properties.get_*"), ("trajectories", "Trajectories.get_*"), ("signed log sums", "mathtools.logsumlog")],
     technique="contracts on the real bound Properties/Trajectories objects with uninterpreted force providers, symbolic execution to a term normal form",
     note="three atoms, bead numbers 1, 2 and 4; the choice of the finite-difference step is not covered; centroid-constrained dynamics "
     "combined with fixed atoms is not covered")

prop("P18", "Bosonic exchange: potential, forces and estimators are exact",
     "For indistinguishable bosons the spring potential, its forces and the kinetic-energy and permutation estimators are those of the sum over all "
     "exchange permutations of the ring polymers, whatever the positions, the number of bosons and their order in the system; forces are minus the "
     "gradient of the potential. A single boson, or a simulation without bosons, is exactly the distinguishable case, other particles keep their own "
     "ring polymers, and a step of the dynamics uses these forces for the bosons.",
     ["inputs", "configurations"], "all bead positions, masses, temperatures, choices of bosons among the atoms",
     "the recursion has quadratically many terms whose mistakes matter only when exchange is likely, for more than two bosons or for a permuted list",
     ["ipi/utils/exchange.py", "ipi/engine/normalmodes.py", "ipi/engine/properties.py"],
     [("exchange", "ExchangePotential"), ("binding", "NormalModes.get_vspring_and_fspring / free_babstep"), ("estimators", "Properties.get_kintd / fermionic_sign / probabilities")],
     technique="contracts on the real bound exchange object, the sum over permutations as the specification, symbolic execution to a term normal form and symbolic differentiation",
     note="one to four bosons and two to four beads enumerated; the step contract is bounded; a single bead (no springs) is outside")

prop("P02", "Derived quantities follow every change of what they depend on",
     "In a running simulation, after any input of the system (positions, momenta, masses, cell, temperature, time step, external pressure or stress, bias and Hamiltonian weights, "
     "thermostat, barostat and normal-mode parameters) has changed, every quantity of the system that can be read equals what a system newly set up with the changed value gives, "
     "even if it had been read and cached before the change. This covers the beads, the normal modes, the forces, the ensemble, the thermostats, the barostats and the integrators.",
     ["inputs", "histories", "configurations"], "all positions, momenta, masses, cells, parameters, force fields; all listed ensembles, thermostats, barostats, propagators and changed inputs",
     "a missing dependency shows only after a particular quantity was read before a particular input changed, e.g. masses changing in the middle of a run",
     ["ipi/utils/depend.py", "ipi/engine/beads.py", "ipi/engine/normalmodes.py", "ipi/engine/forces.py", "ipi/engine/ensembles.py", "ipi/engine/thermostats.py", "ipi/engine/barostats.py", "ipi/engine/motion/dynamics.py"],
     [("dependency network", "bind methods of the engine"), ("cache", "depend_base.update_auto / taint")],
     technique="contract: for every quantity of the real dependency network, the value read in a changed living system equals that of a twin set up with the changed value; symbolic execution to a term normal form",
     note="bead numbers and the kinds of ensemble enumerated; quantities whose functions are outside the term language (matrix exponentials of coloured-noise thermostats) are sampled")

prop("P16", "A restarted simulation continues as if it had never stopped",
     "Loading a checkpoint saved after any step, or the restart file left by an interruption at any point, and running on gives the same final state and the same remaining outputs as the "
     "uninterrupted run, to the precision of the numbers written: coordinates, momenta, cell, conserved-energy books, thermostat and barostat variables, ensemble parameters, "
     "optimiser history, random numbers, exchanges and step counters. No step is lost or done twice, outputs are continued and not overwritten, and what is loaded, saved and loaded again stays the same.",
     ["crash_points", "histories", "configurations"], "all listed kinds of simulation, saved steps and points of interruption; all values for the storing and fetching of objects",
     "a forgotten variable or an off-by-one matters only for one kind of simulation restarted in the middle, which no test does",
     ["ipi/inputs/", "ipi/engine/simulation.py", "ipi/engine/outputs.py", "ipi/utils/prng.py", "ipi/utils/softexit.py"],
     [("state", "Input*.store / fetch"), ("run and interruption", "Simulation.run / softexit"), ("checkpoint", "CheckpointOutput")],
     technique="contracts relating the restarted to the uninterrupted run (bounded, every listed configuration); store-fetch identity of the input classes by symbolic execution; load-save-load of every declared setting (bounded: one non-default value each)",
     note="three atoms, up to five beads, six steps; sockets, multithreaded runs and the default (8 digit) number format are outside; the planetary mode cannot be set up at all and is not covered")

prop("P17", "Replica exchange and Monte Carlo moves sample exactly and keep the books",
     "An attempted exchange of two replicas (temperatures, pressures, stresses, Hamiltonian or bias weights), of two isotopes or of the positions of two atoms is accepted with the probability the "
     "joint distribution requires, counting every part of the energy that changes. An accepted move exchanges exactly what it says, rescales momenta, cell momenta and auxiliary thermostat momenta to the new "
     "temperature and leaves the conserved quantity where it was, while a rejected move leaves no trace; replica labels always name the parameters a system carries, and temperature and pressure ramps follow their schedule.",
     ["inputs", "histories", "configurations"], "all coordinates, momenta, masses, cells, force fields, parameters and random numbers",
     "acceptance is a formula over two whole systems whose mistakes bias averages but crash nothing; tests compare a few steps of fixed runs",
     ["ipi/engine/smotion/remd.py", "ipi/engine/ensembles.py", "ipi/engine/motion/alchemy.py", "ipi/engine/motion/atomswap.py", "ipi/engine/motion/ramp.py"],
     [("replica exchange", "ReplicaExchange.step / ensemble_swap / Ensemble.get_lpens"), ("isotopes and swaps", "AlchemyMC.step / AtomSwap.step"), ("ramps", "TemperatureRamp.step / PressureRamp.step")],
     technique="contracts on the real bound systems with uninterpreted force providers and free random numbers: acceptance conditions by SMT over normalised terms, state maps by term normal form; "
     "the exchanged state is evaluated on freshly built systems",
     note="two or four atoms, one to three beads, two or three replicas; stresses closer than 1e-10 atomic units are not told apart by the code; alchemical moves of bosons are outside")

prop("P15", "Configuration files are read back as they were written",
     "A configuration or trajectory frame written in any supported format, quantity and unit is read back frame by frame, without being told the units, as the same atoms, labels, values and cell to the "
     "printed precision, and masses follow from the labels. A unit or quantity asked for explicitly is used if the file is silent and refused if the file says otherwise. A frame that ends before its last atom is refused, "
     "and atoms given in a general cell are turned with it so that distances and fractional coordinates stay.",
     ["inputs", "configurations"], "all values, labels, cells, quantities, units and numbers of frames",
     "columns, units and truncation go wrong only for particular magnitudes, units or cut points; tests read a few well-behaved files",
     ["ipi/utils/io/__init__.py", "ipi/utils/io/io_units.py", "ipi/utils/io/backends/io_xyz.py", "ipi/utils/io/backends/io_pdb.py", "ipi/utils/io/backends/io_json.py", "ipi/utils/io/backends/io_binary.py"],
     [("units", "print_file / auto_units / process_units"), ("text", "print_xyz / read_xyz / print_pdb / read_pdb / print_json / read_json")],
     technique="unit layer: symbolic round-trip contract through an in-memory file format for every quantity and unit, by term normal form; text layer: bounded runs of the real writers and readers",
     note="the text layer is bounded (sampled frames); labels of at most six characters (four in PDB and JSON); PDB coordinates within its columns; the ASE format is not installed here; binary files hold one frame")

prop("P19", "Output files hold what was asked for, when asked, and nothing is lost",
     "Each output file gets one entry at the start and after every stride-th step and none otherwise or once the run is ending, holding the values the system has at that step, in the order and units asked for and announced in the "
     "file, for exactly the beads asked for. A bead, quantity or unit that does not exist is refused. Whatever a file held before a run is still there afterwards, under its name or as a numbered backup.",
     ["inputs", "configurations", "histories"], "all values, strides, flush intervals, units, bead selections, quantities and sequences of runs that write the same files",
     "the columns, units, beads and steps combine in many ways and a wrong label or a lost file shows only in somebody's analysis; tests compare a few short outputs",
     ["ipi/engine/outputs.py", "ipi/utils/io/__init__.py", "ipi/inputs/outputs.py"],
     [("property and trajectory files", "PropertyOutput.write / print_header, TrajectoryOutput.open_stream / write / write_traj"), ("backups", "open_backup, OutputMaker.get_output")],
     technique="contracts on the real output classes with symbolic values of all quantities and files kept in memory, by term normal form; header text, backups and whole runs in bounded runs in a scratch folder",
     note="the unprocessed additional data of force providers are not compared; two or four beads in the symbolic part; checkpoint contents are P16's")

prop("P20", "A simulation starts from exactly what its input describes",
     "Positions, momenta or velocities, masses, labels and cell given explicitly, by a file or by a checkpoint, in any unit, for the whole path or for a single bead or atom, are what the simulation starts from, and nothing else "
     "changes. A path described with another number of beads is expanded or contracted by its normal modes with momenta brought to the temperature of the path, and thermal momenta have the variance of the dynamical masses at the "
     "requested temperature. A description that does not determine the system, or does not fit it, is refused.",
     ["inputs", "configurations"], "all values, units, numbers of beads and frames, orders of the entries and random numbers",
     "the combinations of source, unit, bead and atom index and order are many and a wrong start shows only as a wrong run; tests start from a few files",
     ["ipi/engine/initializer.py", "ipi/inputs/initializer.py"],
     [("initialisation", "Initializer.init_stage1 / init_vector / set_vector / init_beads / init_file"), ("input", "InputInitializer.fetch / InputInitCell.fetch / InputInitBase.getval")],
     technique="contracts on the real initialiser with symbolic values (readers of files and checkpoints replaced by their contracts), by term normal form; the input text and real files in bounded runs",
     note="two or three atoms, up to five beads; expansion of a path with an even number of frames is checked in P07 only; second-stage initialisation of GLE momenta is not covered")

P.sort(key=lambda d: d["id"])
