#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as code so that the entries stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"observe_at": observe} if observe else {}), "hook_needed": None}})

U = "src/particles/universe.rs"; O = "src/integrator/output.rs"; M = "src/main.rs"
LF = "src/integrator/leapfrog.rs"; WH = "src/integrator/whfast.rs"; IA = "src/integrator/ias15.rs"
T = "src/tools.rs"

prop("C01", "Resuming from a recovery snapshot continues the run as if never interrupted",
 "For every case, integrator and interruption point, a run that is stopped at a binary recovery snapshot and resumed with unchanged options (any number of times) goes through exactly the same later states and appends exactly the same history bytes as the run that was never stopped. A JSON recovery snapshot does the same up to the rounding of its decimal numbers. Writing recovery snapshots, more or fewer of them, never changes the trajectory or the history.",
 ["histories", "configurations", "inputs"], "all integrators, coordinate systems, effect combinations, snapshot periods and interruption points, including repeated interruptions",
 "The tests only run uninterrupted fixed cases and compare final states; no test restores a snapshot mid-run.",
 [M, O, LF, WH, IA, U], [("restore_snapshot / write_recovery_snapshot", O), ("iterate", LF), ("iterate", WH), ("iterate", IA)],
 ["case history file", "recovery snapshot", "in-memory state after each step"])

prop("C02", "A killed or failing run never loses what its last complete snapshot recorded",
 "Wherever a run is killed, once one recovery snapshot has been completed there is always a complete recovery snapshot on disk (under the snapshot name or as its backup) that is at least as recent as the last completed one, and the history file holds at least every record that snapshot counts, so resuming from it succeeds and continues the uninterrupted run. The replaced snapshot is kept as a restorable backup with the same content and format. A failing write to the snapshot or history is never reported as success: the run ends with an error.",
 ["crash_points", "fault_sequences", "histories"], "process death before or after every file-system operation of a run, and an I/O error or short write at every file-system write, for binary and JSON snapshots and all integrators",
 "No test kills the program, injects an I/O error or looks at a backup file; the window between renaming the old snapshot and completing the new one is never exercised.",
 [O, M, LF, WH, IA], [("flush history, rename old snapshot, create and write the new one", O), ("write_recovery_snapshot flushes the history first", LF)],
 ["file-system operations of the posidonius process", "files left behind by a killed run"])

prop("C03", "History and recovery snapshots are taken exactly on schedule",
 "A run writes its first history record at time zero before any step; afterwards, before each step, it writes exactly one more record if the time since the last scheduled record has reached the history period, the schedule advancing by exactly one period per record for fixed-step integrators (no drift) and restarting at the record's time for IAS15. A recovery snapshot is taken after the first step and then after each step that began at least one recovery period after the previous recovery snapshot. Each record carries the current time and time step, and the number of records counted by the snapshot equals the number written.",
 ["schedules", "inputs", "histories"], "all combinations of time step, history period, recovery period and time limit, period changes on resume, and all integrators",
 "The tests use one fixed period per case and never read the history back.",
 [LF, WH, IA, M], [("snapshot triggers in iterate", LF), ("snapshot triggers in iterate", WH), ("snapshot triggers in iterate", IA), ("main loop", M)])

prop("C04", "Runs stop exactly at the time limit and honour the run-time options",
 "A run performs steps until taking one more would carry it past the time limit, then ends successfully without overshooting (a run always takes at least one step, also when the limit is less than one step away); an execution-time limit instead stops it early, leaving a recovery snapshot from which it can be resumed, and never suppresses the periodic recovery snapshots. On resume the new history period, recovery period and time limit given on the command line (when positive) replace the stored ones and everything else is kept; a new time limit is refused when it lies before the current time or beyond the tabulated ages of an evolving body. Every documented command-line option is accepted.",
 ["configurations", "inputs", "histories"], "all time limits, time steps, integrators, option combinations of start and resume, and the state in which they are applied",
 "No test exercises the command line or changes options on resume.",
 [M, LF, WH, IA], [("argument parsing and main loop", M), ("set_time_limit, set_snapshot_periods, end of iterate", LF)])

prop("C05", "Starting never overwrites results and resuming never keeps or invents records",
 "Starting a case refuses to run, and leaves every existing file byte for byte as it was, if the snapshot or the history file already exists. Resuming cuts the history file back to exactly the records the snapshot counts before appending new ones; if the history holds fewer records than the snapshot counts, or the snapshot is missing or unreadable, resuming refuses to run and does not modify the snapshot or any recorded history.",
 ["histories", "configurations", "fault_sequences"], "all combinations of existing/missing/short/long/corrupt snapshot and history files for start and resume",
 "No test runs the program against existing or damaged output files.",
 [M, O], [("existence checks before opening the history", M), ("get_universe_history_writer", O), ("restore_snapshot", O)])

prop("C06", "History records faithfully describe the state and are read back as written",
 "Each history entry holds, for every body in order, the time, time step, body number, barycentric position, spin, barycentric velocity, mass, radius, squared radius of gyration, Love number, scaled dissipation factor, lag angle, tidal energy loss rate and disk migration timescale of the state at that time, in that order and in a fixed-size little-endian layout. The Python reader recovers exactly these values, body by body, for any number of bodies and records, ignoring an incomplete trailing record set.",
 ["inputs", "histories"], "all universes (numbers of bodies, effects, models), all record counts, and all truncations of a history file",
 "No test reads a history file back, in Rust or in Python.",
 [O, "posidonius/analysis/history.py"], [("write_historic_snapshot, n_bytes_per_particle_in_historic_snapshot", O), ("history reader", "posidonius/analysis/history.py")])

prop("C07", "Snapshots restore the exact simulation, and incomplete ones are rejected",
 "Restoring a snapshot yields the same integrator type with the same state that was saved: bit for bit for binary snapshots and up to decimal rounding for JSON. Every proper prefix of a snapshot file (what an interrupted write leaves behind) is rejected rather than restored as some other simulation.",
 ["inputs", "crash_points", "configurations"], "all integrators, numbers of bodies, effect models, evolver tables, times, and all truncation lengths of snapshot files",
 "No test serialises a running simulation or truncates a snapshot.",
 [O, LF, WH, IA, U], [("serde derives", WH), ("deserialize_bin_snapshot / deserialize_json_snapshot", O)])

prop("C08", "Configurations are accepted, rejected and reduced consistently",
 "Building a universe rejects every configuration with more than ten bodies, more than one central body for an effect, a relativity centre that is not the most massive body, or different centres for tides and rotational flattening, and accepts all others. An effect ends up enabled exactly when it was requested and some body provides it (a central body for tides, flattening, relativity and disk; any body for wind and evolution), its host is the declared central body and the most massive body is the reference. A body may not mix the creep model with another model between tides and flattening, nor give the two different viscosities.",
 ["configurations"], "all combinations of requested effects, per-body roles and models, body orders and masses",
 "Tests build a dozen fixed, valid configurations.",
 [U, "src/particles/particle.rs"], [("disable_unnecessary_effects, find_indices", U), ("check_uniform_viscosity_coefficient", "src/particles/particle.rs")])

prop("C09", "Forces depend only on the current physical state",
 "The accelerations, torques and evolving quantities computed for a state depend only on that physical state (time, masses, positions, velocities, spins, tables and parameters): not on which calculations were made before, on history output having been written, or on bodies and effects that are switched off. Bodies that take no part in an effect receive nothing from it, and no calculation yields a non-finite number for bodies at finite non-zero separations.",
 ["histories", "configurations", "inputs"], "all call histories of the force calculations, all effect subsets and per-body roles",
 "The tests run one fixed call sequence per integrator and only compare end states.",
 [U, "src/effects/tides/common.rs", "src/effects/tides/constant_time_lag.rs", "src/effects/rotational_flattening/common.rs", "src/effects/general_relativity.rs", "src/effects/evolution.rs"],
 [("initialize, calculate_additional_effects", U), ("pair_dependent_scaled_dissipation_factor", "src/effects/tides/constant_time_lag.rs")])

prop("C10", "Results do not depend on the order in which bodies are listed",
 "Listing the same bodies in another order gives the same accelerations, torques, collisions, ejections, energies and trajectories for each body, up to floating-point rounding, for every effect, with the central body anywhere in the list. Where the algorithm itself defines the order (Jacobi coordinates of the orbiting bodies in WHFast and in the Anderson relativity formula), moving only the central body within the list changes nothing.",
 ["configurations", "inputs"], "all permutations of the body list, all effect combinations and integrators",
 "Every test case lists the star first.",
 [U, WH, "src/effects/tides/common.rs", "src/effects/general_relativity.rs", "src/effects/disk.rs"], [("split_at_mut around the host index", U)])

prop("C11", "Newtonian gravity is exact, momentum-conserving and complete",
 "The gravitational acceleration of each body is the sum over all other bodies of G m/r^2 towards them, so total momentum and angular momentum rates vanish; the modes used by WHFast leave out exactly the interactions its Kepler step covers (central body with first orbiting body in Jacobi coordinates, everything involving the central body in democratic-heliocentric and WHDS coordinates). A new universe is expressed in its barycentric frame with all relative positions and velocities preserved, and heliocentric quantities are relative to the most massive body. Reported total energy and angular momentum are those of the state they are computed from.",
 ["inputs", "configurations"], "all numbers of bodies, masses, positions, velocities, host positions in the list and ignore modes",
 "The tests check a few end states with a star in first position.",
 [U], [("gravity_calculate_acceleration", U), ("calculate_center_of_mass, inertial_to_heliocentric", U), ("compute_total_energy, compute_total_angular_momentum", U)])

prop("C12", "Every collision, tidal disruption and ejection is detected, and nothing else",
 "A run stops with an error as soon as two bodies overlap, come within the Roche limit of the pair, or a body is farther than 100 AU from the most massive body, whichever bodies are involved and in whatever order they are listed; it never stops for any other separation. The Roche limit is that of the less massive body of the pair, from the masses and radii at the start of the simulation.",
 ["inputs", "configurations"], "all pairs of bodies, masses, radii and separations around the limits, body orders, ignore modes",
 "No test brings bodies near a limit.",
 [U, "src/constants.rs"], [("calculate_roche_radiuses, gravity_calculate_acceleration", U)])

prop("C13", "Constant time lag tides follow the published model and conserve momentum",
 "The tidal force and the torques on host and orbiting bodies, with the frequency-dependent dissipation of evolving bodies in the dynamical-tide regime, and the reported energy loss are those of the constant time lag model of Bolmont et al. 2015 for the current positions, velocities and spins. The forces on host and orbiting bodies are opposite; what the orbit loses in angular momentum the spins gain. A synchronous, circular, zero-obliquity pair feels no tidal torque.",
 ["inputs", "configurations"], "all masses, radii, Love numbers, dissipation factors, spins, orbits, host positions in the body list, evolving and non-evolving bodies",
 "Tests compare end states of fixed cases after a fixed number of steps with generous tolerances.",
 ["src/effects/tides/constant_time_lag.rs", "src/effects/tides/common.rs", U], [("calculate_orthogonal_component_of_the_tidal_force and siblings", "src/effects/tides/constant_time_lag.rs"), ("calculate_tidal_acceleration, calculate_dangular_momentum_dt_due_to_tides, calculate_denergy_dt", "src/effects/tides/common.rs")])

prop("C14", "Kaula tides follow the spectral model and conserve momentum",
 "For bodies with the Kaula model that orbit in the reference plane and rotate prograde about its normal (the two-dimensional expansion) the tidal force and the orbit-averaged torque are those of the degree-two Kaula expansion, to the order in eccentricity that the model prescribes, with the body's tabulated complex Love number interpolated at the tidal frequencies of the current orbit (around the tidal host) and spin, for planetary and for stellar tides, tables of any length, circular and eccentric orbits, alone and beside bodies with other models. For any orientation the forces on the pair are opposite, all results are finite for bound orbits, bodies without tides receive nothing, and a body without dissipation (zero imaginary Love number) feels no tidal torque.",
 ["inputs", "configurations"], "all bound orbits, spins, Love-number tables, host/planet roles, list positions and mixtures with other models",
 "One fixed case per role is run for a few steps.",
 ["src/effects/tides/kaula.rs", "src/effects/tides/common.rs"], [("calculate_tidal_force, calculate_torque_due_to_tides", "src/effects/tides/kaula.rs")])

prop("C15", "Creep coplanar tides and flattening follow the creep tide model",
 "For coplanar bodies with the creep model the equilibrium shape is the one of the creep tide theory for the current orbit, spin and viscosity, and the resulting tidal and flattening forces and torques are its radial and orthogonal components. Forces on host and orbiting body are opposite, the spin of an orbiting body gains exactly what its own deformation takes from the orbit, and only bodies with the model take part.",
 ["inputs", "configurations"], "all masses, radii, viscosities, spins, eccentricities and roles",
 "Fixed cases only, end states only.",
 ["src/effects/tides/creep_coplanar.rs", "src/effects/rotational_flattening/creep_coplanar.rs"], [("calculate_creep_coplanar_shape, calculate_tidal_force", "src/effects/tides/creep_coplanar.rs")])

prop("C16", "Rotational flattening follows the oblate spheroid model",
 "The force and torque that rotational flattening of the host and of the orbiting bodies induces are those of the oblate spheroid model of Bolmont et al. 2015 for the current positions and spins, including bodies that do not rotate. Forces on the pair are opposite and each body's spin torque is balanced by the orbit.",
 ["inputs", "configurations"], "all masses, radii, Love numbers, spins (including zero), positions, roles and host positions in the list",
 "Fixed cases only, end states only.",
 ["src/effects/rotational_flattening/oblate_spheroid.rs", "src/effects/rotational_flattening/common.rs"], [("oblate spheroid force and torque", "src/effects/rotational_flattening/oblate_spheroid.rs")])

prop("C17", "General relativity corrections follow the selected published formula",
 "The relativistic accelerations are those of the selected formula (Kidder 1995 with first and second post-Newtonian and spin-orbit terms and spin precession, Anderson et al. 1975, or Newhall et al. 1983) for the current masses, positions, velocities and spins. They do not depend on which integrator asks for them or on where the origin of coordinates is, and for the two-body pair of Kidder's formula the forces on host and body are opposite.",
 ["inputs", "configurations"], "all masses, positions, velocities, spins, numbers of bodies, formulas and integrator modes",
 "One fixed case per formula and integrator, end states only.",
 ["src/effects/general_relativity.rs"], [("kidder1995, anderson1975, newhall1983 accelerations", "src/effects/general_relativity.rs")])

prop("C18", "Stellar wind braking and disk migration follow their models",
 "Wind torque on each windy body is minus the wind constant times its spin vector times the lower of the squared spin rate and the squared saturation rate, scaled with radius and mass; bodies without wind feel none. Beyond the inner edge of the disk, orbiting bodies that interact with it feel the model's migration force and eccentricity and inclination damping with the migration timescale of their orbit and of the current surface density, which decays exponentially with the disk lifetime; inside the inner edge they feel none, and the host receives the reaction. No other body feels the disk.",
 ["inputs", "configurations"], "all spins around saturation, masses, radii, disk parameters, orbits inside, at and outside the edges, and times around and far beyond the disk lifetime",
 "No test goes near saturation, the disk edges or the disk lifetime.",
 ["src/effects/wind.rs", "src/effects/disk.rs"], [("calculate_wind_factor", "src/effects/wind.rs"), ("calculate_disk_interaction_acceleration", "src/effects/disk.rs")])

prop("C19", "Evolving bodies follow their tables at every queried time",
 "For every evolving body the radius, radius of gyration, Love number and tidal quality factor at a time are the linear interpolation of its model table at that time, whatever times were asked for before (including going back in time within a step). The table is the one of the declared model and mass, converted to simulation units and shifted to the initial time; unsupported masses and simulations not covered by the table's time range are refused. Quantities a model does not provide keep the body's own value.",
 ["histories", "inputs", "configurations"], "all model types and masses, tables, initial times and time limits, and all query sequences",
 "Tests query increasing times once per step through a whole simulation and only look at end states.",
 ["src/effects/evolution.rs", T, U], [("Evolver::new, radius, radius_of_gyration_2, love_number, inverse_tidal_q_factor", "src/effects/evolution.rs"), ("linear_interpolation", T)])

prop("C20", "Spin and angular momentum stay consistent and evolve only through torques",
 "At every step each body's spin equals its spin angular momentum divided by its current moment of inertia (mass, squared radius of gyration, squared radius), and the angular momentum changes only by the sum of the tidal, flattening, relativistic and wind torques on that body. When radius or radius of gyration evolve the angular momentum is conserved, so the spin adapts; a body without active torques keeps its angular momentum exactly.",
 ["inputs", "histories", "configurations"], "all bodies, effects, integrators and evolution tables over whole runs",
 "Only final spins of a few cases are compared.",
 [U, "src/particles/common.rs", "src/effects/evolution.rs", LF, WH, IA], [("calculate_spin", "src/particles/common.rs"), ("calculate_dangular_momentum_dt", U)])

prop("C21", "A LeapFrog step is exactly drift-kick-drift of the full equations of motion",
 "Each LeapFrog step moves positions by half a step, updates velocities with the total acceleration (gravity plus all enabled effects) at the midpoint, and moves positions by the other half; spins follow the torques at the start and midpoint in the same way and time advances by one step. It is therefore second order, time-reversible without dissipation, and conserves total momentum.",
 ["inputs", "histories", "configurations"], "all universes, effect sets, time steps and numbers of steps",
 "Fixed cases, end states only, wide tolerances.",
 [LF, U], [("iterate, integrator_part1, integrator_part2", LF)])

prop("C22", "A WHFast step is the Wisdom-Holman splitting in every coordinate system",
 "Each WHFast step is half a Kepler drift, a kick by the remaining interactions and additional effects, and half a Kepler drift, in Jacobi, democratic-heliocentric and WHDS coordinates; each Kepler drift is the exact two-body motion, also for eccentric and unbound orbits, and the centre of mass moves uniformly. A two-body system is solved exactly for any time step in Jacobi and WHDS coordinates, and all coordinate systems converge to the same trajectory as the step shrinks.",
 ["inputs", "histories", "configurations"], "all numbers of bodies, host positions in the list, orbits, coordinate systems, time steps, numbers of steps and effect sets",
 "Fixed nearly circular cases, end states only.",
 [WH, U], [("iterate, kepler_steps, jacobi/democratic/whds transformations", WH)])

prop("C23", "An IAS15 step solves the equations of motion to near machine precision",
 "Each accepted IAS15 step reproduces the true solution of the full equations of motion (gravity and enabled effects, spins included) over the step it reports to near machine precision, whatever step size the adaptive control chose, and time advances by exactly that step. Rejected trial steps leave no trace in the state.",
 ["inputs", "histories", "configurations"], "all universes, eccentric and close-encounter orbits, effect sets, initial time steps and step sequences including rejections",
 "Fixed cases, end states only.",
 [IA, U], [("iterate, integrator step and step control", IA)])

prop("C24", "Orbital elements and Cartesian states convert into each other faithfully",
 "Converting Keplerian elements (semi-major or perihelion distance, eccentricity, inclination, angles, mean anomaly) to position and velocity gives the state on that orbit at that anomaly, for circular, elliptic, parabolic and hyperbolic orbits, and converting back recovers the elements. The solutions of Kepler's equation satisfy it for every eccentricity and anomaly. The Rust and Python versions agree.",
 ["inputs"], "all eccentricities (below, at and above one), inclinations, node and perihelion angles, anomalies and masses",
 "One test converts one single orbit.",
 [T, "posidonius/tools.py"], [("calculate_cartesian_coordinates, calculate_keplerian_orbital_elements, kepler_solution_*", T)])

prop("C25", "Cases written by the Python front end describe exactly what was declared",
 "For every case built with the Python API, the JSON file that the Rust program reads contains the bodies, parameters, effects, evolution and integrator settings as declared and yields the same initial universe (barycentric positions, hosts, enabled effects, moments of inertia, tables) as building it with the Rust API. Invalid cases (too many bodies, two central bodies, bad centres) are refused by Python as they are by Rust.",
 ["configurations", "programs"], "all case scripts: numbers of bodies, effects, models, evolution types, integrators and settings",
 "The Python tests compare with a few stored files and cannot run without the input tables.",
 ["posidonius/particles/universe.py", "posidonius/particles/particle.py", "posidonius/effects", "posidonius/integrator", U], [("get()/write of the Python classes", "posidonius/particles/universe.py"), ("Universe::new", U)])

prop("C26", "The analysis of a history reports the orbits and heating it describes",
 "For every history, classify() returns each body other than the reference body (whichever body that is) with its rows in order, relative to the reference body, with the elements of its orbit about the other bodies, independently of the order in which bodies are listed, and leaves the history itself unchanged; the elements, angles and mean anomalies used to search for resonances describe the same orbits; the candidate resonances are the nearest fractions within the documented limits; a pair is resonant exactly if a resonant angle librates; the mean tidal heating equals the average of the heating that the simulation records.",
 ["inputs", "histories"], "all histories: numbers and order of bodies, reference bodies, orbits; all period ratios, limits and angle series",
 "The analysis package has no tests.",
 ["posidonius/analysis/history.py", "posidonius/analysis/resonances.py", "posidonius/analysis/computation.py"], [("classify", "posidonius/analysis/history.py"), ("calculate_resonance_data, get_possible_resonances, is_resonance", "posidonius/analysis/resonances.py"), ("energydot", "posidonius/analysis/computation.py")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P))
