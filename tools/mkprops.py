#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "A parallel Python run simulates every primary exactly once",
 "A QEDCascPy run with several threads simulates every requested primary exactly once and returns, as a set, exactly the input and final-state rows that a single-threaded run returns for the same random draws, whatever the order in which the threads run. "
 "No two threads touch the same data without synchronisation, no row is lost, duplicated or mixed up between particles, and the run always finishes.",
 ["schedules", "configurations"], "All interleavings of the worker threads of one run, for every number of threads and events (including fewer events than threads and repeated runs on one manager).",
 "The only test runs the example once with two threads and looks at nothing but the exit status; a lost or duplicated primary needs a particular interleaving of two threads.",
 ["Source/Python/RunManager.cpp", "Source/Particles/SourceGenerator.cpp", "Source/Tools/MCTools.hh"],
 [("parallel loop over primaries with per-thread row buffers", "Source/Python/RunManager.cpp beamOn"), ("atomic claim of the next primary", "Source/Particles/SourceGenerator.cpp GenerateList"), ("one random engine per thread", "Source/Tools/MCTools.hh")],
 [("m_partCount", "next primary to hand out", "SourceGenerator"), ("m_*_P_X", "rows per thread", "RunManager")], ["getInput/getElectrons/getPositrons/getPhotons"])

prop("C02", "A parallel command-line run records what a sequential run records",
 "A QEDCASC run built with OpenMP writes a file whose primary and final-state tables, histograms and particle tracks hold, event by event or as sets where events have no order, exactly what the sequential program writes for the same random draws, for every order in which the threads run. "
 "No two threads touch the same data without synchronisation and the run always finishes.",
 ["schedules", "configurations"], "All interleavings of the event-loop threads, for every thread count, over runs with histograms, tracking and several sources.",
 "The OpenMP build of the command-line program is compiled but never run by the tests; lost histogram counts or corrupted track lists need two threads inside the same update.",
 ["Source/Exec/QEDCASC.cpp", "Source/IO/Output/OutputManager.cpp", "Source/IO/Output/Histogram.cpp", "Source/Particles/SourceGenerator.cpp"],
 [("parallel loop over events", "Source/Exec/QEDCASC.cpp main"), ("critical sections around histogram and track updates", "Source/Exec/QEDCASC.cpp main"), ("per-event slots", "Source/IO/Output/OutputManager.cpp StoreSource")],
 [], ["HDF5 output file"])

prop("C03", "An MPI run gathers every rank's data exactly once and always finishes",
 "When QEDCASC runs on several MPI ranks, the file written by the first rank holds every primary row, every final-state particle row and every histogram count of every rank exactly once, with the columns of each row intact and each row in the table of its species, whatever the sizes of the ranks' contributions (including none). "
 "The run finishes on every rank, without dead-lock, mismatched or truncated messages, for every order in which messages arrive and whether or not sends are buffered; ranks draw from differently seeded random sequences.",
 ["schedules", "configurations"], "All message-matching orders and both buffering modes for any number of ranks and any per-rank particle counts.",
 "The MPI build is only compiled by the tests, never run; receive order, rendezvous sends and empty contributions are not reachable from unit tests.",
 ["Source/IO/Output/OutputManager.cpp", "Source/Exec/QEDCASC.cpp"],
 [("size exchange then data exchange per rank and species", "Source/IO/Output/OutputManager.cpp OutputEventsMPI"), ("sum of bins over ranks with a wildcard receive and a closing barrier", "Source/IO/Output/OutputManager.cpp OutputHistMPI"), ("seed per rank", "Source/Exec/QEDCASC.cpp main")],
 [], ["HDF5 output file of rank 0", "termination of every rank"])

prop("C04", "Random draws follow the requested law and are reproducible when seeded",
 "Uniform draws lie in [low, high) and scale linearly with the underlying random number, normal draws have the requested mean and standard deviation, discrete draws return each index with its own share of the total weight and never an index of zero weight, and a sample of n draws has n independent entries. "
 "After setting a seed the following draws of that thread are the same every time, and different seeds give different draws; threads that are not seeded do not repeat one another.",
 ["inputs", "histories"], "All values of the underlying random words on a fine grid, all small weight vectors, ranges, means and sample sizes, and all short sequences of seeding and drawing operations.",
 "No test looks at a drawn value; a biased index or a seed without effect only shows in the law of many draws.",
 ["Source/Tools/MCTools.cpp", "Source/Tools/MCTools.hh"],
 [("distribution objects on one engine", "Source/Tools/MCTools.cpp")], [], ["MCTools functions"])

prop("C05", "The output file holds exactly the data that was stored, in its documented place",
 "For every sequence of output operations, the file contains one table of primaries and one table per non-empty species for every source that was output, one entry per track, list, field map and histogram, each at its documented name and holding exactly the stored numbers (id/energy/px/py/pz/x/y/z rows in event order; the tables of sources in natural units, single particles, tracks and field maps converted where a unit system was given), and nothing else. "
 "Operations never overwrite, drop or relabel data stored before, and no valid sequence crashes.",
 ["histories", "inputs"], "All sequences up to a bounded length of store/output operations over all small event contents (including empty events, several sources, tracking on or off, with and without units).",
 "One example run with a single source is executed and its file is never read back.",
 ["Source/IO/Output/OutputManager.cpp", "Source/IO/Output/HDF5Output.cpp"],
 [("per-event buffers flattened into tables", "Source/IO/Output/OutputManager.cpp"), ("groups created on demand", "Source/IO/Output/HDF5Output.cpp")], [], ["HDF5 file"])

prop("C06", "A histogram counts each particle once, in the bin of the requested property",
 "Adding a particle to a histogram raises exactly the bin whose centre is nearest to the value of the requested property (energy, x, y, z, px, py or pz, in either letter case) by one if the value lies between the first and the last bin centre, and changes nothing otherwise; bin centres are equally spaced from the lower to the upper limit. "
 "Filling from a list normalises the bin values to sum to one (or leaves them zero when nothing was in range), and merging adds the counts of compatible histograms and leaves the histogram unchanged when the other is not compatible.",
 ["inputs", "histories"], "All properties, spellings, bin layouts and particle values on a bounded grid, and all short sequences of add, fill and merge operations.",
 "The example fills one energy histogram and nothing reads it.",
 ["Source/IO/Output/Histogram.cpp", "Source/Tools/Numerics.cpp"],
 [("property dispatch and nearest-bin search", "Source/IO/Output/Histogram.cpp AppParticle, Fill"), ("nearest index", "Source/Tools/Numerics.cpp ArrayIndex")], [], ["bin centres and bin values"])

prop("C07", "All particles of an event stay on the simulation clock",
 "Each time step advances every live particle that existed at its start by exactly one step and lets it interact after the push, particles created in a step start at the end of that step, and the run stops at the first step boundary at or after the end time. "
 "Each histogram is filled once per event, at the first step boundary at or after its time (or in the final state if that is never reached), with the live particles of its species; each tracked particle records one position/momentum/time/gamma entry per update, all four belonging together.",
 ["inputs", "configurations", "histories"], "All combinations of bounded configurations: fields, radiation models, pair production, step counts, histogram times (equal, between steps, beyond the end) and outcomes of the random draws.",
 "The example checks nothing about times; errors of one step or in the order of push, interaction and snapshot leave plausible output.",
 ["Source/Exec/QEDCASC.cpp", "Source/Python/RunManager.cpp", "Source/Physics/ParticlePushers/ParticlePusher.cpp", "Source/Particles/Particle.cpp"],
 [("time loop", "Source/Exec/QEDCASC.cpp main; Source/Python/RunManager.cpp beamOn"), ("clock and history of a particle", "Source/Particles/Particle.cpp UpdateTrack, UpdateTime")], [], ["histograms, tracks and final tables of the output file"])

prop("C08", "The recorded final state is exactly the surviving particles, by species",
 "After a run every particle that still exists is recorded exactly once, in the output of its own species (electron, positron or photon) with its own energy, momentum and position (and, in the Python module, statistical weight), and photons that converted into pairs are recorded nowhere. "
 "Charge is conserved event by event: final positrons minus electrons equals that of the primaries.",
 ["inputs", "configurations"], "All primary species, radiation models with and without pair production, and all outcomes of the random draws that decide emission and conversion.",
 "Pair production is never switched on in a test run, so species bookkeeping is never exercised.",
 ["Source/Python/RunManager.cpp", "Source/IO/Output/OutputManager.cpp", "Source/Exec/QEDCASC.cpp", "Source/Physics/Processes/NonLinearBreitWheeler.cpp"],
 [("selection by species and life flag", "Source/IO/Output/OutputManager.cpp StoreSource; Source/Python/RunManager.cpp beamOn")], [], ["HDF5 tables", "getElectrons/getPositrons/getPhotons"])

prop("C09", "Input files are read as written",
 "For every input file, each setting is found under its section and name regardless of letter case and of the order and spacing of lines, comments (; or # at the start of a line, ; after white space) are ignored, sections may be repeated or interleaved, and settings that are absent or empty take their defaults. "
 "A file with a malformed line is reported as an error with the number of its first malformed line instead of being read partly.",
 ["inputs"], "All files of up to a bounded number of lines over an alphabet of line shapes and tokens.",
 "Tests parse one well-formed file and compare nothing.",
 ["Source/IO/Input/ini.cpp", "Source/IO/Input/INIReader.cpp", "Source/IO/Input/FileParser.cpp"],
 [("line grammar", "Source/IO/Input/ini.cpp ini_parse_stream"), ("case-folded key map", "Source/IO/Input/INIReader.cpp")], [], ["INIReader getters", "FileParser exit status"])

prop("C10", "Settings reach the simulation with the right value and unit",
 "Every documented setting of the input deck is delivered to the simulation as the number, word, flag or vector that was written, converted from SI to natural units by the factor of its own dimension (time, length, energy, electric or magnetic field; direction, angles, counts, fractions and histogram limits unconverted), and every omitted one as its documented default. "
 "Vectors may be written with spaces, commas and any usual number format, in brackets or not; the natural units are those of the electron mass, the speed of light and the Schwinger field. The summary in input-check.txt repeats the settings in use.",
 ["inputs", "configurations"], "All settings one by one and in pairs over an alphabet of values and spellings; all vector notations over a token alphabet.",
 "The one parser test never looks at a parsed value.",
 ["Source/IO/Input/FileParser.cpp", "Source/IO/Input/INIReader.cpp", "Source/Tools/UnitsSystem.cpp", "Source/Python/RunManager.cpp"],
 [("read and scale each section", "Source/IO/Input/FileParser.cpp Read*"), ("reference values", "Source/Tools/UnitsSystem.cpp")], [], ["FileParser getters", "UnitsSystem getters"])

prop("C11", "Unusable input is refused with an error instead of a wrong or endless run",
 "A command line or input deck that cannot describe a run (no or several arguments, a file that is missing or is no .ini file, missing vital settings, an unknown unit system, field, radiation model, particle species or histogram property, a time step that is not positive or too small to reach the end time, a negative particle count, a sample fraction outside 0 to 1, a field without positive wavelength, duration or waist, a histogram of fewer than two bins, a vector without exactly three numbers, missing interpolation tables, an output file that cannot be created) ends the program with an error message and a non-zero exit status. "
 "It never crashes, hangs or reports success, while every usable deck runs to completion with exit status zero.",
 ["inputs", "configurations"], "All decks obtained from valid ones by one or two defects of an alphabet of defects, and all short command lines.",
 "Tests only run one valid deck.",
 ["Source/Exec/QEDCASC.cpp", "Source/IO/Input/FileParser.cpp", "Source/IO/Input/INIReader.cpp", "Source/Tools/UnitsSystem.cpp"],
 [("argument and vital checks", "Source/Exec/QEDCASC.cpp main; Source/IO/Input/FileParser.cpp CheckVitals")], [], ["exit status and messages of QEDCASC"])

prop("C12", "Both front ends simulate the configured physics",
 "For the same configuration and the same random draws, the command-line program and the Python module produce the same primaries and the same final particles (up to their units), and both agree with an independent reference simulation built from the documented model. "
 "This covers the choice of field, radiation model, pair production, photon sampling and minimum photon energy, source and time parameters.",
 ["configurations", "inputs"], "The whole product of field types, radiation models, pair production, species, energy distributions, sampling fractions and outcomes of the random draws over bounded alphabets.",
 "Tests run one configuration per front end and compare nothing.",
 ["Source/Exec/QEDCASC.cpp", "Source/Python/RunManager.cpp", "Source/Python/QEDCascPy-Bindings.cpp"],
 [("assembly of field, pusher, processes and sources", "Source/Exec/QEDCASC.cpp main; Source/Python/RunManager.cpp beamOn")], [], ["HDF5 tables", "arrays returned by the Python module"])

prop("C13", "Particle pushers solve the equations of motion of the chosen model",
 "A push moves a particle by one fourth-order Runge-Kutta step of the relativistic Lorentz force, plus the classical or Gaunt-corrected radiation reaction for the two radiating models, and advances its clock by the step: errors fall with the fourth power of the step, magnetic fields alone conserve energy, electrons and positrons bend oppositely, and radiation only ever removes energy. "
 "Photons and all particles without field move on straight lines at their velocity with unchanged momentum, dead particles do not change, and no push with a step that resolves the motion yields an undefined number.",
 ["inputs", "histories"], "All combinations of pusher, species, bounded momenta (including rest), field vectors, space-time dependent fields and step sequences on a grid.",
 "The pusher test executes an empty program.",
 ["Source/Physics/ParticlePushers/ParticlePusher.cpp", "Source/Physics/ParticlePushers/LorentzPusher.cpp", "Source/Physics/ParticlePushers/LandauPusher.cpp", "Source/Physics/ParticlePushers/ModifiedLandauPusher.cpp"],
 [("Runge-Kutta step", "Source/Physics/ParticlePushers/ParticlePusher.cpp PushParticle"), ("force laws", "PushMomentum of each pusher")], [], ["particle state after PushParticle"])

prop("C14", "Stochastic emission radiates at the quantum rate and conserves energy",
 "An electron or positron accumulates optical depth at the tabulated quantum synchrotron rate of its local quantum parameter, emits exactly when the depth is used up, loses exactly the momentum of the photon (along its direction of motion), and then starts with a fresh exponentially distributed depth; photons and dead particles never radiate. "
 "Of the emitted photons above the minimum energy the requested fraction is recorded, with the weight divided by that fraction and the time and place of emission, so that weighted totals are unbiased; photons never carry more energy than their emitter had.",
 ["inputs", "histories"], "All bounded momenta, fields, steps, fractions and thresholds on a grid, and all outcomes of the random draws on a fine grid, over sequences of interactions.",
 "No test runs the quantum model.",
 ["Source/Physics/Processes/StochasticEmission.cpp", "Source/Physics/Processes/PhotonEmission.cpp", "Source/Particles/Particle.cpp"],
 [("rate, optical depth and recoil", "Source/Physics/Processes/StochasticEmission.cpp Interact"), ("quantum parameter and photon energy sampling", "Source/Physics/Processes/PhotonEmission.cpp")], [], ["particle and list after Interact"])

prop("C15", "Continuous emission yields photons with unbiased weights",
 "In each interaction an electron or positron records at most one photon, with probability equal to the sampling fraction and with a weight equal to its own weight times the expected number of photons emitted in the step divided by the sampling fraction, so that the expected recorded number of photons does not depend on the fraction; a fraction of zero records none and a fraction of one always samples. "
 "The photon starts at the emitter's place and time, along its motion, with an energy drawn from the tabulated spectrum (classical scaling in the classical model) above the minimum energy; the emitter is unchanged.",
 ["inputs"], "All bounded momenta, fields, steps, fractions, thresholds, both models, and all outcomes of the random draws on a fine grid.",
 "The example runs the classical model and looks at nothing but the exit status.",
 ["Source/Physics/Processes/ContinuousEmission.cpp", "Source/Physics/Processes/PhotonEmission.cpp"],
 [("sampling decision and weight", "Source/Physics/Processes/ContinuousEmission.cpp Interact")], [], ["particle list after Interact"])

prop("C16", "Pair production turns one photon into one pair and conserves energy",
 "A photon in a field accumulates optical depth at the tabulated Breit-Wheeler rate of its local quantum parameter and converts exactly when the depth is used up: it is removed and exactly one electron and one positron appear at its place and time, with its weight, moving along its direction, each with at least its rest energy and together with exactly its energy. "
 "Nothing happens without field, below the threshold energy of two rest masses, for charged particles or for photons already converted, and no draw yields an undefined number.",
 ["inputs", "histories"], "All bounded photon energies, directions, fields and steps on a grid (including zero field and threshold), and all outcomes of the random draws on a fine grid, over sequences of interactions.",
 "The one test calls the process once and checks nothing.",
 ["Source/Physics/Processes/NonLinearBreitWheeler.cpp"],
 [("optical depth, split and kinematics", "Source/Physics/Processes/NonLinearBreitWheeler.cpp Interact, CalculateSplit")], [], ["photon and particle list after Interact"])

prop("C17", "Laser and static fields have the documented shape and obey Maxwell's equations",
 "Plane, gaussian and focusing fields travel at the speed of light along the requested direction, with electric and magnetic field perpendicular to the direction and to each other and of equal size (on axis and in the focal plane for the focused pulse), with the requested peak, wavelength, polarisation angle, waist and duration; the pulses start at their start position at time zero and reach the focus position. "
 "They are covariant under translation and rotation of the set-up, satisfy the vacuum Maxwell equations to the order of their model, and static fields are uniform and constant.",
 ["inputs", "configurations"], "All points and times of a space-time grid for all directions, focus positions, polarisations, waists and durations of a parameter grid.",
 "The field test executes an empty program.",
 ["Source/Physics/Fields/EMField/GaussianEMField.cpp", "Source/Physics/Fields/EMField/FocusingField.cpp", "Source/Physics/Fields/EMField/PlaneEMField.cpp", "Source/Physics/Fields/EMField/StaticEMField.cpp"],
 [("field formulas in the beam frame and rotation to the lab", "GetField of each field")], [], ["GetField"])

prop("C18", "Particle sources deliver the requested beam",
 "A source delivers exactly the requested number of primaries, one per event, of the requested species with weight one at time zero, with the requested energies (all equal, normal with mean and sigma, or uniform between two limits), positions spread normally by radius across and by duration along the beam around the requested position, and directions spread by the divergence around the requested direction, for every direction. "
 "Asking for more primaries than requested is an error, and separate draws are independent.",
 ["inputs", "histories"], "All species, distributions, directions (all axes, diagonals, both senses), positions and spreads of a grid with all outcomes of the random draws on a grid, and all call sequences up to depletion.",
 "Tests use one direction and never compare primaries with the requested beam.",
 ["Source/Particles/SourceGenerator.cpp", "Source/Particles/Lepton.cpp", "Source/Particles/Photon.cpp"],
 [("draws in the beam frame, rotation to the direction", "Source/Particles/SourceGenerator.cpp")], [], ["ParticleList from GenerateList"])

prop("C19", "Table look-up is exact at nodes, linear between and continuous everywhere",
 "Interpolating a table returns the stored value at every node, the straight line between neighbouring nodes, and the straight line of the first or last pair beyond the ends; the nearest-index search returns the index of the closest node, and the bracketing search the interval and relative position of the query. "
 "Queries beyond the supported range of the bracketing search end the program with an error instead of reading outside the table, and Simpson integration is exact for cubics.",
 ["inputs"], "All small tables over a value grid (increasing axes, arbitrary data, minimal sizes) and all query positions: at, between, midway and beyond nodes.",
 "No test calls these functions.",
 ["Source/Tools/Numerics.cpp"],
 [("search and interpolation", "Source/Tools/Numerics.cpp")], [], ["Numerics functions"])

prop("C20", "Vector and matrix algebra obeys its identities",
 "Vector sums, products, norms, unit vectors, directions between points, matrix products, determinants and inverses satisfy the identities of linear algebra, operands are never changed, and the rotation from one vector onto another is a proper rotation that maps the first direction onto the second for every pair, including parallel and opposite ones. "
 "The null vector has a finite (null) unit vector.",
 ["inputs"], "All vectors and pairs of vectors with components of a small alphabet, and all 3x3 matrices with entries of a small alphabet.",
 "No test checks a result.",
 ["Source/Tools/ThreeVector.hh", "Source/Tools/ThreeMatrix.hh"],
 [("operators, Norm, RotateToAxis, Inverse", "Source/Tools/ThreeVector.hh; Source/Tools/ThreeMatrix.hh")], [], ["ThreeVector and ThreeMatrix operations"])

prop("C21", "The Python run manager behaves the same after every history of calls",
 "For every sequence of configuration calls and runs on one or several managers, a run uses exactly the latest valid settings, a setting that cannot be used (an unknown name, a size that is not positive, a fraction outside 0 to 1) is refused with a message, a run is refused with a message (leaving earlier results readable) while something required is missing or invalid, and returns only its own results, with array shapes N x 6 and N x 7; the same settings give the same results whatever was called before. "
 "No sequence of calls crashes or hangs the interpreter.",
 ["histories"], "All call sequences up to a bounded length over an alphabet of valid and invalid configuration calls, runs and result getters.",
 "The example makes one fixed sequence of calls.",
 ["Source/Python/RunManager.cpp", "Source/Python/RunManager.hh", "Source/Python/QEDCascPy-Bindings.cpp"],
 [("set-flags and re-creation of the components", "Source/Python/RunManager.cpp")], [("m_fieldSet/m_physSet/m_genSet", "whether a part was configured", "RunManager")], ["Python API"])

prop("C22", "A run that reports success has written complete output",
 "Whenever a write, flush or close of the output file fails (disk full, I/O error, at any point of the run), the command-line program ends with a non-zero exit status; it ends with status zero only if the output file is complete and readable with all its data. "
 "The same holds when the output file cannot be created.",
 ["fault_sequences", "crash_points"], "Every single failure of a file operation of a run, at every position, with every error kind, including short writes, for several configurations.",
 "No test injects a fault.",
 ["Source/IO/Output/HDF5Output.cpp", "Source/IO/Output/OutputManager.cpp", "Source/Exec/QEDCASC.cpp"],
 [("HDF5 exceptions and file close", "Source/IO/Output/HDF5Output.cpp")], [], ["exit status", "HDF5 file"])

prop("C23", "Particles and particle lists keep consistent state through every update",
 "For every sequence of updates, a particle's energy, Lorentz factor, velocity and direction agree with its momentum and mass, its clock and optical depth change only by the amounts given, a tracked particle's histories have one entry per update with the values of that moment while an untracked one keeps none, and a killed particle stays dead. "
 "A list returns its particles in the order they were added, up to its capacity, reports the rest as forgotten, and releases each particle exactly once; a fresh optical depth is exponentially distributed.",
 ["histories", "inputs"], "All sequences up to a bounded length of updates over small argument domains, for all species, tracking on and off, and all small list capacities; all outcomes of the random draw on a fine grid.",
 "No test looks at a particle's state.",
 ["Source/Particles/Particle.cpp", "Source/Particles/Lepton.cpp", "Source/Particles/Photon.cpp", "Source/Particles/ParticleList.cpp"],
 [("state updates and histories", "Source/Particles/Particle.cpp"), ("bounded list", "Source/Particles/ParticleList.cpp")], [], ["particle and list getters"])

prop("C24", "A run stays inside its memory and gives it back",
 "No accepted input and no sequence of calls makes either front end read or write outside its objects, use an object that was released, or release one twice. "
 "What an event, a time step or a run needs is released with it: the number of objects that a command-line run leaves behind depends on neither its events nor its steps, repeating calls and runs on a Python manager does not pile up objects, and a manager that is dropped releases what it held.",
 ["histories", "configurations"], "All sequences of calls up to a bounded length over valid and invalid calls, repeated until the number of objects settles, and all command-line configurations of a product with different numbers of events and steps.",
 "Tests end after one run and look at no memory; a scan of thousands of runs in one session is where it fails.",
 ["Source/Python/RunManager.cpp", "Source/Exec/QEDCASC.cpp", "Source/Particles/SourceGenerator.cpp", "Source/Particles/ParticleList.cpp", "Source/IO/Output/OutputManager.cpp", "Source/Physics/Processes"],
 [("components are deleted before a run replaces them", "Source/Python/RunManager.cpp beamOn, ~RunManager"), ("events are released after use", "Source/Particles/SourceGenerator.cpp FreeSources"), ("event buffers", "Source/IO/Output/OutputManager.cpp FreeSource"), ("tables", "Source/Physics/Processes/*.cpp UnloadTables")], [], ["address sanitizer", "live objects"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
