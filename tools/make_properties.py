import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
S="src/"
p("C01","Distance to a surface is the first forward crossing; inside/outside agree",
 "For every sphere, x-plane and x-cylinder, every origin and every unit direction, the reported distance is the smallest strictly positive distance at which the ray crosses the surface, and infinity if it never does (a tangential touch is not a crossing). A point is reported inside exactly when it lies strictly within the radius of the sphere or cylinder, or strictly below the plane's x coordinate. Hence stepping just past a reported crossing flips inside/outside and stepping just short of it does not.",
 ["inputs"],"all surfaces (position, size), all origins (inside, outside, on and near the surface) and all unit directions including axis-parallel and grazing ones",
 "The tests check about a dozen hand-picked rays on surfaces of size about 1; roots lost to cancellation, wrong radius comparisons (invisible at r=1) or wrong root choice elsewhere are not reached.",
 [S+"CSGSurface.cpp",S+"CSGSurface.hpp"],[("stable quadratic roots","src/CSGSurface.cpp CSGSurface::SolveQuadratic"),("per-surface Distance/Contains","src/CSGSurface.cpp Sphere, PlaneX, CylinderX")],["return values of the surface distance and containment queries"])
p("C02","Points, materials and temperatures resolve exactly as the input declares",
 "A cell contains a point exactly when the point is on the declared side of every one of its bounding surfaces; looking up a point yields a cell that contains it, or a reported error when no cell does; and a cell's nearest boundary is the one of its bounding surfaces with the smallest forward distance. Each cell has the declared material (number density, and atom fractions normalised to sum to one) and its own temperature if given, otherwise the global temperature field evaluated at the point, otherwise 293.6 K.",
 ["inputs","configurations"],"all models (surfaces, cells, voids, materials, temperature declarations) and all points",
 "The tests use three fixed models with few cells and look at a handful of points; declaration order, shared surfaces/materials, per-cell temperatures over linear fields are not exercised.",
 [S+"World.cpp",S+"Cell.cpp",S+"Material.cpp",S+"ScalarField.cpp"],[("cell lookup and sense test","src/World.cpp FindCellContaining, src/Cell.cpp Contains/NearestSurface"),("assignment of materials, fractions, temperatures","src/Cell.cpp Assign*, src/Material.cpp AssignNuclides, src/World.cpp Create*, src/ScalarField.cpp")],["cells, materials and temperature fields of a constructed model"])
p("C03","Flights are straight, end at a collision or the first boundary, in its cell",
 "During transport every flight moves the particle a non-negative distance exactly along its current direction and ends either at a collision strictly before the nearest boundary of the cell it is in or at that nearest boundary, and never farther. After a flight the particle's cell is the cell that contains its position; direction and energy change only through a scattering collision, with the direction staying a unit vector.",
 ["inputs","histories","configurations"],"all models, source positions and random histories, both tracking methods",
 "No test looks at the steps of a history; one test transports in a single unit sphere and checks the leak fraction within statistical error.",
 [S+"TransportMethod.cpp",S+"Particle.cpp",S+"Cell.cpp",S+"World.cpp"],[("flight loop of surface and cell-delta tracking","src/TransportMethod.cpp"),("position/direction updates","src/Particle.cpp Stream, Scatter")],["the particle state after every transport event"],"observation of a particle after each event, behind the monitor guard")
p("C04","Every boundary crossing is registered exactly once, on the surface crossed",
 "Along the path of every particle, each crossing of a cell-bounding surface is registered as exactly one crossing (or leak) event naming that surface, and nothing else is registered as a crossing. A particle is never skipped past a boundary, left on its old side of it, or counted twice, whatever the size of the coordinates or the angle of incidence.",
 ["inputs","histories","configurations"],"all models (any scale, nested and adjacent cells), source positions and histories, both tracking methods",
 "Tests cross one unit sphere centred at the origin along its radius; round-off at larger coordinates or grazing incidence is never met.",
 [S+"TransportMethod.cpp",S+"Constants.hpp",S+"CSGSurface.cpp"],[("nudge past the boundary before the next cell is looked up","src/TransportMethod.cpp Transport"),("surface carried by the crossing event","src/Particle.hpp current_surface")],["the crossing and leak events of each particle and the straight segments between its collisions"],"observation of a particle after each event, behind the monitor guard")
p("C05","Particle balance: one terminal event each, every secondary transported once",
 "Every particle of a history is transported from birth to exactly one terminal event (capture, fission, or leak) after which nothing more happens to it; a leak happens exactly when it enters a void cell. Every secondary produced by a fission starts at the fission site in the same cell and is itself transported exactly once within the same history, so per run source particles plus secondaries equal captures plus fissions plus leaks.",
 ["inputs","histories","configurations"],"all models with and without fission, all particle types declared, all histories",
 "The only end-to-end test has a pure absorber; secondaries, multi-generation histories and leaks through several cells are never run end to end.",
 [S+"FixedSource.cpp",S+"TransportMethod.cpp",S+"Bank.cpp",S+"Particle.cpp",S+"Multigroup.cpp",S+"ContinuousReaction.cpp"],[("bank loop","src/FixedSource.cpp StartWorker, src/Bank.cpp"),("alive/terminal events","src/Particle.cpp IsAlive, src/TransportMethod.cpp")],["begin and end of each particle's transport and each banked secondary"],"observation of transport begin/end and of banked secondaries, behind the monitor guard")
p("C06","Reported mean and standard error are those of the actual per-history scores",
 "For every current estimator and every bin, the reported mean is the number of crossings of that estimator's surface falling in that bin over the whole run divided by the number of histories N, and the reported standard error is sqrt(sum of x_i^2 - (sum of x_i)^2/N)/N, where x_i is the total scored in that bin by history i including all its secondaries. Both are finite, whatever the bins, the number of estimators or the number of worker threads.",
 ["inputs","histories","configurations","schedules"],"all models, sets of estimators and bins, history and thread counts",
 "The single estimator test checks one mean of one unbinned estimator; standard errors, bins, several estimators on one surface, multiple crossings per history and secondaries are not checked.",
 [S+"Scorable.cpp",S+"Estimator.cpp",S+"FixedSource.cpp"],[("pending per-history scores committed once per history","src/Scorable.cpp ScorableProxy"),("merge of worker results","src/Estimator.cpp operator+=, src/FixedSource.cpp Solve"),("mean and standard error","src/Scorable.cpp GetScore, GetScoreAsString")],["the result of a run and its printed form, against an independent recount of the crossing events"],"observation of every scored event and of history boundaries, behind the monitor guard")
p("C07","Bins partition the line and every crossing is tallied in the bin that holds it",
 "For linearly spaced, logarithmically spaced and explicit-boundary bins with boundaries b_1 < ... < b_n there are n+1 bins, and a value v is assigned to bin k exactly when b_k <= v < b_(k+1), everything below b_1 to the first bin and everything at or above b_n to the last. With energy and cosine bins together every (cosine bin, energy bin) pair has its own slot, chosen from the particle's energy or group and the cosine between its direction and the reference direction (normalised).",
 ["inputs"],"all bin specifications (including negative ranges, any log base) and all finite values, directions and energies including values outside the range, zero and negative ones",
 "No test exercises bins at all.",
 [S+"Bins.cpp",S+"Bins.hpp"],[("index computation per bin kind","src/Bins.cpp GetIndex"),("flattening of cosine and energy bins","src/Bins.hpp ComputeStrides, src/Bins.cpp ParticleBins")],["bin index, number of bins, printed boundaries"])
p("C08","Parallel workers run each history exactly once, without data races",
 "For any number of worker threads, including more threads than histories, each of the histories 0..N-1 is started by exactly one worker, with random seed (run seed + history number), and contributes exactly once to the result; no other history is run. Workers never access shared data in a racy way, so the tallied sums are the same for every thread count and schedule (up to summation order of non-integer scores).",
 ["schedules","configurations","inputs"],"all thread counts, history counts and interleavings of the workers",
 "One test runs two threads once and looks at a mean with 3% tolerance; lost or doubled histories and data races stay invisible.",
 [S+"FixedSource.cpp",S+"FixedSource.hpp",S+"Estimator.cpp"],[("atomic claim of the next history","src/FixedSource.cpp StartWorker"),("per-worker estimator sets merged at the end","src/FixedSource.cpp Solve")],["claimed histories, per-thread results, thread-sanitizer reports"],"observation of the start and commit of each history, behind the monitor guard")
p("C09","Runs are reproducible and each history depends only on its own seed",
 "Running the same input again gives the same result, and the sequence of events of a history is determined by the model and that history's seed alone: it does not depend on which histories ran before it, on which thread ran it, on how many histories or threads there are, or on which estimators are attached. Consequently a run with run seed s+1 repeats histories 1..N-1 of the run with seed s as its histories 0..N-2.",
 ["histories","schedules","configurations"],"all models, seeds, batch sizes, thread counts and estimator sets",
 "No test runs anything twice or compares histories.",
 [S+"FixedSource.cpp",S+"Source.cpp",S+"Particle.cpp"],[("per-particle generator seeded from run seed + history number","src/FixedSource.cpp, src/Source.cpp Sample, src/Particle.cpp BankSecondaries")],["event logs of each history over differently arranged runs"],"observation of events per history, behind the monitor guard")
p("C10","Collision distances follow the exponential law of the local cross section",
 "In a cell with one temperature, the distance to the next collision is exponentially distributed with rate number density times the material's total cross section at the particle's energy, where the material total is the sum of each nuclide's total weighted with its normalised atom fraction. Boundary crossings do not bias it: the chance of traversing a chord of length l without a collision is exp(-rate*l) in every cell of the path.",
 ["inputs","histories","configurations"],"all materials, particle energies or groups, particle types, cells and both tracking methods",
 "The leakage test checks the traversal probability of one mean free path in a one-nuclide, one-group absorber with 1000 samples.",
 [S+"TransportMethod.cpp",S+"Material.cpp",S+"Nuclide.cpp"],[("exponential flight sampling","src/TransportMethod.cpp"),("macroscopic total","src/Material.cpp GetMicroscopicTotal")],["flight distances and events of particles in multi-cell, multi-nuclide models"],"observation of a particle after each event, behind the monitor guard")
p("C11","Collisions pick nuclide and reaction in proportion to their cross sections",
 "Given a collision, the struck nuclide is chosen with probability proportional to atom fraction times its total cross section, and the reaction with probability proportional to that nuclide's cross section for it, both at the particle's energy or group, type and local temperature. Nuclides or reactions with zero cross section at that energy are never chosen.",
 ["inputs","histories"],"all materials, nuclides, reactions (capture, scatter, fission), energies or groups, multigroup and continuous-energy data",
 "The tests check the reaction frequencies of two nuclides in two groups; nuclide selection in mixtures and all continuous-energy selection are untested (their data files are absent).",
 [S+"Particle.cpp",S+"Multigroup.cpp",S+"Continuous.cpp",S+"Nuclide.cpp"],[("cumulative selection","src/Particle.cpp SampleNuclide, src/Multigroup.cpp Interact, src/Continuous.cpp Interact")],["chosen nuclides and the event each collision results in"])
p("C12","Scattering matrices and fission data are sampled as declared",
 "A multigroup scatter from group g leaves in group g' with probability proportional to the matrix entry in row g', column g, and in an isotropic direction. A fission emits floor(nubar) or floor(nubar)+1 secondaries with mean nubar of the incident energy or group, each an independent neutron at the site with isotropic direction and, for multigroup data, a group drawn from the declared spectrum column of the incident group; for continuous-energy data the secondary keeps the incident energy.",
 ["inputs","histories"],"all group structures, matrices, spectra (including unnormalised columns), nubar values and tables",
 "Tests look at one two-group nuclide and never at secondaries' energies, directions or yield in continuous energy.",
 [S+"Multigroup.cpp",S+"ContinuousReaction.cpp",S+"Particle.cpp",S+"Point.cpp"],[("column-normalised matrices","src/Multigroup.cpp NormalizedTwoDimensional, Scatter, Fission"),("continuous fission","src/ContinuousReaction.cpp ContinuousFission::Interact")],["outgoing group and direction of scattered particles; number, groups and directions of secondaries"],"observation of banked secondaries, behind the monitor guard")
p("C13","Source particles follow the declared source distributions",
 "Every source particle starts at the declared position with the declared energy (or group) and type, in a unit direction: exactly the declared one normalised, uniform over the sphere for an isotropic source, or, for an isotropic-flux source, with cosine mu in [0,1] to the reference direction of density 2 mu and uniform azimuth about it. The sample is a function of the seed alone.",
 ["inputs","histories"],"all source definitions, reference directions (including along the axes) and seeds",
 "The tests never sample the source distributions other than through one leakage run.",
 [S+"Source.cpp",S+"Point.cpp"],[("distribution objects","src/Source.cpp"),("direction sampling","src/Point.cpp Direction")],["sampled source particles"])
p("C14","Scattering turns a direction by the requested cosine about a uniform azimuth",
 "Directions are always unit vectors, however many scatters a particle has had. A direction built from a reference direction, a cosine mu and an azimuth phi has cosine mu with the reference for every reference direction (including along any axis), different azimuths give correspondingly rotated directions, and scattering a particle with cosine mu leaves it at that cosine to its previous direction with an azimuth uniform in [0, 2 pi), and with the given energy.",
 ["inputs","histories"],"all unit reference directions, cosines in [-1,1], azimuths, and long chains of scatters",
 "The tests check three directions and one statistical mean.",
 [S+"Point.cpp",S+"Particle.cpp"],[("orthonormal frame about the reference","src/Point.cpp Direction::Direction"),("scatter","src/Particle.cpp Scatter")],["constructed directions and particle direction before and after scattering"])
p("C15","Cell-delta tracking is statistically equivalent to exact tracking",
 "Cell-delta tracking samples the same collision physics as analytic transport: in a cell with spatially varying temperature the density of real collisions along a ray is the local macroscopic total at each point times the exponential of minus its integral, and with constant temperature results agree with surface tracking. Virtual collisions change nothing but the particle's position.",
 ["inputs","histories","configurations"],"all temperature fields, materials with temperature-dependent data, cells and energies",
 "No test runs cell-delta tracking.",
 [S+"TransportMethod.cpp",S+"Material.cpp",S+"ScalarField.cpp"],[("majorant flight and acceptance","src/TransportMethod.cpp CellDeltaTracking::Transport")],["positions of real collisions and events of each step"],"observation of a particle after each event, behind the monitor guard")
p("C16","The majorant bounds the total cross section everywhere in a cell",
 "For every material, particle energy and type, the majorant used in a cell is finite and at least the total cross section at any position in the cell whose temperature lies within the temperature field's declared bounds, when a nuclide's data share one temperature, its tabulated total equals the sum of its tabulated reactions and any thermal-scattering majorant table bounds its cross sections. Where nothing depends on temperature the majorant equals the total.",
 ["inputs","configurations"],"all energies, temperatures within declared bounds, positions, multigroup and continuous-energy materials with and without thermal scattering data",
 "No test evaluates a majorant (its data files are absent).",
 [S+"Material.cpp",S+"Continuous.cpp",S+"ContinuousReaction.cpp",S+"ThermalScattering.cpp",S+"Multigroup.cpp"],[("majorant at the maximum temperature","src/Continuous.cpp GetMajorant, src/ContinuousReaction.cpp GetMajorant")],["majorant and total queries for particles placed across a cell"])
p("C17","Cross sections are evaluated as tabulated and adjusted to temperature",
 "Continuous-energy cross sections are linear interpolations of the tabulated points, held constant beyond the ends; the tabulated total is used when its temperature is within 1% of the local temperature (and no thermal scattering applies), otherwise the total is the sum of the reactions. Neutron scattering evaluated at another temperature is multiplied by the ratio of free-gas factors (1+1/(2a))erf(sqrt a)+exp(-a)/sqrt(pi a), a=awr*E/kT, at local and evaluated temperature when awr<=1 or E<500kT/awr. Multigroup totals are the sums of the declared reactions per group, scattering summed over outgoing groups.",
 ["inputs","configurations"],"all tables, energies (inside, at and beyond grid points), temperatures, particle types, multigroup and continuous data",
 "The tests that would read nuclear data fail for want of the data files; only multigroup totals of two nuclides are checked.",
 [S+"Continuous.cpp",S+"ContinuousReaction.cpp",S+"ContinuousEvaluation.cpp",S+"ContinuousMap.hpp",S+"Multigroup.cpp",S+"Material.cpp"],[("interpolation","src/ContinuousMap.hpp at"),("temperature validity and adjustment","src/ContinuousEvaluation.cpp IsValid, src/ContinuousReaction.cpp GetCrossSection"),("totals","src/Continuous.cpp GetTotal, src/Multigroup.cpp CreateTotalXS")],["total cross section of nuclides and materials"])
p("C18","Free-gas scattering has the exact thermal-motion kinematics and spectrum",
 "Elastic scattering without a thermal scattering law samples a target velocity from the Maxwellian at the local temperature weighted by relative speed, and scatters isotropically in the centre-of-mass frame, so the joint distribution of outgoing energy and cosine is that of two-body kinematics for the given awr, incident energy and temperature. Outgoing energies are positive and finite, cosines lie in [-1,1], and at zero temperature the outgoing energy is within [((awr-1)/(awr+1))^2 E, E] with its cosine fixed by kinematics.",
 ["inputs","histories"],"all awr, incident energies, temperatures (including zero) and directions",
 "No existing test that runs reaches continuous-energy scattering.",
 [S+"ContinuousReaction.cpp",S+"Particle.cpp",S+"Point.cpp"],[("target velocity sampling and two-body kinematics","src/ContinuousReaction.cpp ContinuousScatter::Interact")],["outgoing energy and direction of scattered neutrons"])
p("C19","Thermal scattering cross sections interpolate the factorised tables",
 "For a neutron below the thermal cutoff energy the scattering cross section is the reconstruction sum over orders of S*E-mode*T-mode, interpolated linearly between the neighbouring grid energies and grid temperatures; below the lowest grid energy or outside the temperature grid the end value is used. At or above the cutoff, and for other particles, the thermal law is not used; below it the thermal cross section replaces the scattering part of the total whatever the temperature of the tabulated total.",
 ["inputs","configurations"],"all factorised tables, energies and temperatures including grid points and values outside the grids",
 "The thermal-scattering test needs data files that are absent, so it never passes.",
 [S+"ThermalScattering.cpp",S+"ContinuousReaction.cpp",S+"Continuous.cpp"],[("bilinear interpolation","src/ThermalScattering.cpp GetTotal, EvaluateInelastic"),("cutoff","src/ThermalScattering.cpp IsValid")],["total cross section of nuclides with thermal scattering data"])
p("C20","Thermal scattering samples energy and momentum transfer from the tables",
 "Thermal scattering always gives an outgoing energy in [0, E + beta_cutoff kT] and a cosine in [-1,1]. The energy transfer beta follows the tabulated CDF (histogram interpolation between CDF points, interpolated in temperature), with a neighbouring incident-energy grid chosen with linear-interpolation probability and samples below the threshold -E/kT rejected; given beta, the momentum transfer alpha follows the tabulated CDF of a neighbouring beta grid chosen likewise with linear-interpolation probability, restricted to the kinematic limits and rescaled to those of the actual beta. This holds at temperatures up to the highest of the tables.",
 ["inputs","histories"],"all factorised tables with one or several partitions, incident energies below the cutoff, temperatures within the grid",
 "The thermal-scattering test needs data files that are absent, so it never passes.",
 [S+"ThermalScattering.cpp"],[("beta and alpha sampling","src/ThermalScattering.cpp SampleBeta, SampleAlpha, Scatter"),("reconstruction","src/ThermalScattering.cpp BetaPartition::Evaluate, AlphaPartition::Evaluate")],["outgoing energy and direction of neutrons scattered below the cutoff"])
p("C21","Gridded data files are read back exactly; wrong files are rejected",
 "For a data file with D axes, the value returned for indices (i_1..i_D) is the value stored for that combination of axis entries (last axis fastest), axes are returned unchanged, and the derived interpolation table returns exactly the stored value at every grid point and the multilinear interpolation between. A missing file, a different number of axes, or an index beyond an axis is reported as an exception, never answered.",
 ["inputs"],"all shapes (1 to 3 axes), sizes and values, and all index tuples in and out of range",
 "The tests read one small 3-axis file and one invalid one.",
 [S+"HDF5DataSet.hpp",S+"ContinuousMap.hpp"],[("strides and bounds checks","src/HDF5DataSet.hpp ComputeAxisStrides, at_from_base"),("nested interpolation","src/ContinuousMap.hpp")],["values, axes and interpolation table of a loaded file"])
p("C22","Invalid input files are refused with an error, before any transport",
 "An input that is not well-formed, violates the schema, or that in the parts the problem uses refers to an undeclared nuclide, material, surface or perturbation, lacks data for a declared particle type, has group data of the wrong length, an unknown reaction, bins that do not increase, a missing data file, thermal scattering energies or betas that do not increase, a source of undeclared type or group or in no material, or asks for surface tracking with a spatially varying temperature is refused with an exception carrying a message. The program never crashes, hangs or calls abort on it and never returns results for it.",
 ["inputs","fault_sequences"],"all single and combined faults of these kinds injected at any place of any valid input",
 "Six malformed files are tested, each at one place only.",
 [S+"XMLDocument.cpp",S+"World.cpp",S+"Material.cpp",S+"CSGSurface.cpp",S+"Multigroup.cpp",S+"Interaction.cpp",S+"Bins.cpp",S+"Perturbation.cpp",S+"Sensitivity.cpp",S+"Estimator.cpp",S+"TransportMethod.cpp",S+"HDF5DataSet.hpp"],[("schema validation","src/XMLDocument.cpp ValidateXML"),("look-ups that throw","Create/Find functions")],["outcome of constructing and solving a problem from the input, in a child process"])
p("C23","No memory error or undefined behaviour on any valid input",
 "Loading, running and printing any valid problem executes without out-of-bounds or use-after-free access, mismatched or leaked allocations, uninitialised or null dereference, integer or float-conversion overflow or any other undefined behaviour. This holds for every particle type, data kind, tracking method, bin kind, thread count and history of the run.",
 ["inputs","histories","schedules","configurations"],"all valid problems, seeds and thread counts",
 "The tests run without sanitizers over few inputs.",
 ["src"],[("ownership by smart pointers, bounds-checked access","whole src directory")],["AddressSanitizer, LeakSanitizer and UndefinedBehaviorSanitizer reports while the workloads run"])
p("C24","Sensitivity scores are the accumulated indirect effect of each crossing particle",
 "For each estimator and perturbed nuclide, every crossing tallied by the estimator adds to its sensitivity the particle's accumulated indirect effect: the sum over all its flights so far, in materials containing the nuclide, of 1/(microscopic cross section that governs the flight sampling at the start of the flight) minus the flight's length, starting from zero at birth. Flights in other materials add nothing, the bins are those of the estimator, and mean and standard error (finite) are formed from per-history sums as for the estimator.",
 ["inputs","histories","configurations"],"all models, perturbed nuclides, estimators with sensitivities and histories",
 "No test creates a perturbation or sensitivity.",
 [S+"Perturbation.cpp",S+"Sensitivity.cpp",S+"Particle.cpp",S+"Scorable.cpp",S+"Estimator.cpp"],[("indirect effect per flight","src/Perturbation.cpp Stream, src/Particle.cpp Stream"),("sensitivity score","src/Sensitivity.cpp GetScore")],["printed sensitivities of a run, against an independent accumulation over the observed flights"],"observation of a particle after each event, behind the monitor guard")
p("C25","The program writes the results of the run, completely and faithfully",
 "Running the program on INPUT.xml with a valid problem exits successfully and writes INPUT.out: the number of histories, then for each estimator in input order its name, its bin boundaries, and the mean and standard error of every bin, then each of its sensitivities likewise, equal to those of solving the same problem in process. This holds whatever the input and data files are called, whether or not its progress can be shown, and with other runs of the program beside it; no other file is changed. Without exactly one argument, or for an invalid input, or when the output file cannot be written, it ends unsuccessfully, saying why, and leaves no output file with results.",
 ["inputs","configurations"],"all valid inputs with any number of estimators, bins and sensitivities; file names; runs at the same time; invalid command lines and inputs",
 "No test runs the program or looks at its output.",
 [S+"minimc.cpp",S+"Estimator.cpp",S+"Scorable.cpp",S+"Bins.cpp",S+"Driver.cpp"],[("output","src/minimc.cpp main, src/Estimator.cpp to_string, src/Scorable.cpp GetScoreAsString, src/Bins.cpp to_string")],["exit status and output file of the built program"])
p("C26","Random streams of a history's particles are distinct and uncorrelated",
 "Each secondary gets its own random stream: the numbers that decide a secondary's flight and collisions are not the same numbers that decided the emission or transport of its siblings or of its parent, and no two secondaries share a stream. In particular, siblings' emission directions and groups are statistically independent of each other's first flight distances, and a source particle's direction of its first flight and collision.",
 ["inputs","histories"],"all fissioning materials and histories",
 "No test looks at correlations, and marginal distributions look right when streams are reused.",
 [S+"Particle.cpp",S+"Multigroup.cpp",S+"ContinuousReaction.cpp",S+"Source.cpp"],[("seeding of secondaries","src/Particle.cpp BankSecondaries"),("seeding of source particles","src/Source.cpp Source::Sample")],["joint distribution of sibling secondaries' emission and first flights"],"observation of banked secondaries and flights, behind the monitor guard")
p("C27","Histories are distributed as those of the declared problem",
 "For every valid fixed-source problem the histories played are a sample of the declared transport problem: what becomes of the source particle and of its secondaries - event and cell in which they end, position, direction, energy or group and path length there, numbers of collisions, boundary crossings and secondaries, lengths and changes of direction and energy of consecutive flights, alone and together - is distributed as in an independent simulation of the declared source, geometry, materials, cross sections, scattering laws and fission data, and the mean reported in each bin of each estimator agrees with that simulation within statistical error, with either tracking method and any number of threads.",
 ["inputs","histories","schedules"],"all valid multigroup and continuous-energy fixed-source problems: geometries, nuclides with fission, free-gas and thermal scattering, constant and varying temperature, estimators, both tracking methods",
 "Tests compare a handful of runs with stored numbers of the same program; whether the parts together simulate the declared problem is judged by none.",
 [S+"FixedSource.cpp",S+"TransportMethod.cpp",S+"Particle.cpp",S+"Material.cpp",S+"Nuclide.cpp",S+"Multigroup.cpp",S+"Continuous.cpp",S+"ContinuousReaction.cpp",S+"ThermalScattering.cpp",S+"Source.cpp",S+"Estimator.cpp"],[("history loop","src/FixedSource.cpp StartWorker"),("transport loop","src/TransportMethod.cpp SurfaceTracking::Transport, CellDeltaTracking::Transport"),("collisions","src/Nuclide.cpp, src/Multigroup.cpp and src/Continuous.cpp Interact")],["distribution of recorded histories and reported means"],"observation of flights, collisions and secondaries, behind the monitor guard")
p("C28","The outcome depends on what an input says, not on how it is spelled",
 "Two valid inputs which declare the same problem are both accepted and give identical histories and identical reported results, however the declaration is spelled: order of the elements the schema does not order and of attributes, order of the declarations of surfaces, materials, nuclides and of the nuclides of a material, additional declarations nothing refers to, other names of surfaces, materials and cells, spelling of numbers (sign, exponent, zeros, surrounding white space), white space between elements and in lists, comments and processing instructions anywhere, CDATA sections, character references, quotes, empty-element tags and the encoding of the file.",
 ["inputs","configurations"],"all valid multigroup and continuous-energy problems and all their equivalent spellings",
 "Tests read a handful of files written in one style.",
 [S+"XMLDocument.cpp",S+"Driver.cpp",S+"World.cpp",S+"Material.cpp",S+"Multigroup.cpp",S+"Bins.cpp",S+"Source.cpp",S+"Interaction.cpp",S+"CSGSurface.cpp",S+"Cell.cpp"],[("reading of the document","src/XMLDocument.cpp ValidateXML"),("lookup of declarations by name","src/World.cpp, src/Material.cpp, src/CSGSurface.cpp, src/Perturbation.cpp, src/Estimator.cpp"),("reading of lists and numbers","src/Multigroup.cpp, src/Bins.cpp, src/Driver.cpp, src/Source.cpp")],["recorded histories and reported results of differently spelled inputs"],"observation of particles, behind the monitor guard")
p("C29","Equivalent declarations of one physical problem are played alike",
 "Declaring the same physical problem in another way does not change its histories (but for rounding) or results: other units of length (lengths multiplied, number densities divided), of cross section (cross sections multiplied, densities divided) or of energy (energies and temperatures multiplied, in continuous problems), another origin of coordinates, atom fractions or direction and reference vectors multiplied by a factor, a nuclide declared as two which share its fraction, an additional nuclide without cross sections, additional groups no particle can reach, temperatures declared for the cells instead of globally. No length, energy or cross section is special.",
 ["inputs","histories","configurations"],"all valid problems, over many orders of magnitude of the units",
 "Tests use one set of units and magnitudes.",
 [S+"CSGSurface.cpp",S+"TransportMethod.cpp",S+"Cell.cpp",S+"Material.cpp",S+"Nuclide.cpp",S+"Multigroup.cpp",S+"Continuous.cpp",S+"ContinuousReaction.cpp",S+"ThermalScattering.cpp",S+"ScalarField.cpp",S+"Source.cpp",S+"Point.cpp",S+"Estimator.cpp"],[("distances","src/CSGSurface.cpp, src/TransportMethod.cpp"),("macroscopic cross sections","src/Material.cpp, src/Nuclide.cpp"),("energies and temperatures","src/ContinuousReaction.cpp, src/ThermalScattering.cpp")],["recorded histories and reported means of equivalent inputs"],"observation of particles, behind the monitor guard")
p("C30","Runs do not accumulate memory, files or threads",
 "A worker holds memory for the results and for the history it plays, not for the histories it has played: at the end of a history nothing of it remains but its scores. Loading, running and destroying a problem, or trying to load one which is refused, again and again leaves no memory, open files or threads behind.",
 ["histories","inputs","faults"],"all problems, valid or refused, any number of histories, threads and repetitions",
 "Tests play few histories, and do not look at resources.",
 [S+"FixedSource.cpp",S+"Particle.cpp",S+"Bank.cpp",S+"Scorable.cpp",S+"Estimator.cpp",S+"HDF5DataSet.hpp",S+"XMLDocument.cpp",S+"Driver.cpp"],[("bank of a history","src/FixedSource.cpp StartWorker, src/Bank.cpp"),("pending scores","src/Scorable.cpp CommitHistory"),("files","src/HDF5DataSet.hpp, src/XMLDocument.cpp")],["memory of each worker after each history; memory, open files and threads of the process after each cycle"],"observation of the end of each history, behind the monitor guard")
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
