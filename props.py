"""Source of properties.jsonl and MANIFEST.json (python3 gen.py writes both)."""
def P(id, title, statement, over, quant, why, files, mech, state=(), observe=(), technique="", note="", level=None):
    return dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                mech=mech, state=state, observe=observe, technique=technique, note=note)

MC = "stateless model checking of the real code: all interleavings up to a preemption bound, with happens-before race, use-after-free and deadlock detection on every one"
BE = "bounded-exhaustive enumeration of real-code executions against a reference model"
MCNOTE = ("Exhaustive up to the stated preemption bound (see evidence: bound_completed) for the listed drivers (2-4 threads); sequentially consistent interleavings, "
          "plus data races by happens-before on every explored schedule. Trusts the /verif/mc scheduler and clang's access instrumentation.")

BENOTE = ("Exhaustive over the finite spaces named in the evidence (rule and case count per section): every case runs the real code under AddressSanitizer and is compared with an independent reference. "
          "Values between lattice points are not covered.")

PROPS = [
P("C01", "Thread pool runs every submitted task exactly once and always stops",
  "Every task submitted to a thread pool is executed exactly once (at most once if the pool is destroyed before a worker picked it up), a single worker starts tasks in submission order, a task that throws does not prevent later tasks from running, and results written by a task are visible to a caller whose wait for active tasks has returned. "
  "Destroying a pool, or replacing the shared pool, always returns, after which none of its tasks is executing or will be executed. "
  "Nothing keeps a finished or discarded task alive but its own callers.",
  ["schedules"], "every interleaving of producers, workers, and pool destruction; tasks that throw or submit further tasks",
  "The tests run one schedule with sleeping tasks; a lost, duplicated or never finishing task depends on the interleaving of queue, running flag and join.",
  ["threads/thread_pool.cc", "threads/thread_pool.h", "threads/thread_task.cc", "threads/thread_controller.cc"],
  [("queue mutex and running flag", "threads/thread_pool.cc"), ("exception barrier", "threads/thread_task.cc start()")],
  technique=MC, note=MCNOTE),
P("C02", "Task ids are unique, the active count is exact, abort and done are visible",
  "Tasks created concurrently by any threads have different ids. The number of active tasks counts exactly the tasks that were created and have neither finished, been destroyed, nor been discarded by their pool, so waiting for zero returns if and only if no such task is left. "
  "A request to abort is eventually seen by the running task, and once a task reports done everything it wrote before is visible to whoever asked.",
  ["schedules"], "every interleaving of threads that create, submit, abort, poll and drop tasks",
  "Tests create tasks from one thread only; the lost id increment or unpublished flag needs a particular interleaving.",
  ["threads/thread_task.h", "threads/thread_task.cc", "threads/thread_pool.cc"],
  [("atomic id and active counters", "threads/thread_task.cc"), ("atomic abort and done flags", "threads/thread_task.h")],
  technique=MC, note=MCNOTE),
P("C03", "Shared managers are created once and never used half built",
  "Concurrent first uses of platform_manager, sensor_manager, and the shared thread pool all get the same, completely constructed object. Replacing or resetting them while other threads obtain them is safe: callers get either the old or a new instance and nothing is destroyed twice. "
  "Keys assigned automatically by platform_manager::add are unique and never collide with keys assigned explicitly before; frequencies published by one thread are read complete by another.",
  ["schedules"], "every interleaving of first use, add, reset, and frequency changes from two or three threads",
  "Tests create the singletons from the main thread; a double construction or an unlocked read only shows for one interleaving of the first callers.",
  ["platforms/platform_manager.cc", "sensors/sensor_manager.cc", "threads/thread_controller.cc"],
  [("double checked creation", "platforms/platform_manager.cc instance()"), ("key allocation", "platforms/platform_manager.cc add()")],
  technique=MC, note=MCNOTE),
P("C04", "Managers behave as one atomic map; listeners see every change exactly once",
  "add, remove, find, list, and listener registration on a manager are linearizable: every history equals some sequential order of the calls. A key is stored at most once (a second add throws duplicate_key and changes nothing), list returns a snapshot, and every listener registered at that moment is told exactly once about each successful add and remove, before the removed object disappears, and about nothing else. Found objects stay valid after their removal. "
  "For managers, update_notifier, and wavefront_notifier alike: after remove_listener has returned, that listener is not called any more, and while a notification runs any other thread may add or remove listeners.",
  ["schedules", "histories"], "every interleaving of two or three clients, including every pair of two-call programs over the operations",
  "Tests call the manager from one thread; a missed notification or torn map update needs two calls to overlap.",
  ["managed/manager_template.h", "managed/update_notifier.h", "managed/listener_set.h", "eigenverbs/eigenverb_notifier.cc"],
  [("map lock", "managed/manager_template.h"), ("listener hand over", "managed/listener_set.h")],
  technique=MC + "; linearizability against a sequential map model", note=MCNOTE),
P("C05", "Platform motion is one consistent snapshot while hosts and children change",
  "get_motion and the single getters of a platform return position, orientation, and speed that belong to one update, never a mixture, and never go back to an older one. Children always show the motion that their host had at some single moment, and after updates finish all children match the host's last update. "
  "Children may be added, listed, and removed while the host moves; a platform has at most one host, a rejected claim changes nothing, and a child that was removed or whose host was destroyed reports no host.",
  ["schedules"], "every interleaving of updates, getters, and hierarchy changes from two or three threads",
  "Tests update platforms from one thread only; a torn position needs a read between two stores.",
  ["platforms/platform_model.cc", "platforms/platform_model.h"],
  [("motion mutex", "platforms/platform_model.cc"), ("host claim", "platforms/platform_model.cc add_child()")],
  technique=MC, note=MCNOTE),
P("C06", "Readers of the shared ocean get old or new, complete, never going back",
  "ocean_shared::current returns a complete ocean that some update published, never a mixture and never an ocean older than one the same reader already saw. An ocean stays valid for as long as a reader holds it and is destroyed once it was replaced and its last reader let go.",
  ["schedules"], "every interleaving of readers, writers, and reset",
  "Unit tests use one thread.",
  ["ocean/ocean_shared.cc", "ocean/ocean_shared.h"],
  [("ocean lock", "ocean/ocean_shared.cc")],
  technique=MC, note=MCNOTE),
P("C07", "Sensor beams, steering, and schedules change atomically",
  "Adding, replacing, resetting, and querying source beams, receiver beams, steering, and the transmit schedule of one sensor from several threads is linearizable: each call sees all or nothing of every other call. A sensor is a source (receiver) exactly while it has source (receiver) beams, and unknown channels yield no beam and forward steering instead of undefined results.",
  ["schedules", "histories"], "every interleaving of two or three clients, including every pair of two-call programs over the beam operations",
  "Unit tests change beams from one thread only.",
  ["sensors/sensor_model.cc", "sensors/sensor_model.h"],
  [("sensor mutex", "sensors/sensor_model.cc")],
  technique=MC + "; linearizability against a sequential model", note=MCNOTE),
P("C08", "Every sensor update is computed and delivered; no deadlock or data race",
  "After a sensor with listeners is updated, the chain wavefront calculation, direct paths, bistatic eigenverbs, and reverberation time series runs to its end: every affected pair receives direct paths for its geometry, reverberation products exactly if both ends ask for reverberation, and time series exactly if the source has a transmit schedule, and its listeners are told after the data they asked for is in place. "
  "This holds for any interleaving of updates, added sensors, schedule changes, readers of the results, and background workers; no such combination deadlocks, races, or fails to finish.",
  ["schedules"], "every interleaving, up to a preemption bound, of clients and background workers running the real propagation pipeline on a tiny problem",
  "The tests run the pipeline with one client that sleeps; the lock order and hand over errors need specific overlaps of clients and workers.",
  ["sensors/sensor_model.cc", "sensors/sensor_pair.cc", "sensors/sensor_manager.cc", "wavegen/wavefront_generator.cc", "biverbs/biverb_generator.cc", "rvbts/rvbts_generator.cc"],
  [("task hand over", "sensors/sensor_pair.cc"), ("sensor update", "sensors/sensor_model.cc update()")],
  technique=MC, note=MCNOTE),
P("C09", "Superseded calculations deliver nothing after newer ones replaced them",
  "When a sensor is updated again before its previous calculation has started, the previous calculation is aborted and never delivered, at every stage of the chain (wavefront, bistatic eigenverbs, time series). The newest calculation is delivered exactly once, and with one background worker results are delivered in the order of the updates, so what a pair holds at the end belongs to the newest update.",
  ["schedules"], "every interleaving, up to a preemption bound, of repeated updates and background workers",
  "Tests wait for each update to finish before the next one.",
  ["sensors/sensor_model.cc", "sensors/sensor_pair.cc", "threads/thread_task.h"],
  [("abort of the previous task", "sensors/sensor_pair.cc"), ("abort of the previous task", "sensors/sensor_model.cc")],
  technique=MC, note=MCNOTE),
P("C10", "Removing sensors while results are being computed is always safe",
  "Sensors can be removed, either end of a pair first, from any thread including a listener's own callback, and managers and pool can be reset, while their calculations are queued or running. Nothing destroyed is used, nothing deadlocks, everything finishes, the removed sensor's pairs disappear from the manager, a listener given to remove_sensor is not called after it returned, and pairs or sensors that a client still holds stay usable.",
  ["schedules"], "every interleaving, up to a preemption bound, of removal with the background pipeline",
  "A use after free here depends on where exactly the background worker is when the sensor disappears.",
  ["sensors/sensor_manager.cc", "sensors/sensor_pair.cc", "wavegen/wavefront_generator.cc", "biverbs/biverb_generator.cc", "rvbts/rvbts_generator.cc", "managed/listener_set.h"],
  [("shared ownership of pairs", "sensors/sensor_pair.cc"), ("weak source reference", "wavegen/wavefront_generator.cc")],
  technique=MC, note=MCNOTE),
P("C11", "Platform hierarchies: children follow their host's position and orientation",
  "Orientations made from yaw, pitch, and roll, from a rotation, by copying, or by setting single angles have the axes and angles that their definition gives, including vertical pitch and angles beyond 180 degrees, and a mounted orientation is the composition of both rotations. "
  "After any sequence of updates, dead reckoning, adding, moving, and removing of children, every platform has the time and speed of its last update, children have the pose of their host moved by their mounting position and orientation, to any depth, and host() and children() describe the hierarchy; duplicate children are rejected without effect and removed children no longer move.",
  ["inputs", "histories"], "every sequence of hierarchy operations up to a depth on four platforms against a reference model; every orientation, and pair of orientations, in a lattice of angles",
  "Tests move one host with one child at moderate angles; errors need a particular order of operations, copied orientations, or vertical pitch.",
  ["platforms/platform_model.cc", "platforms/platform_model.h", "types/orientation.cc", "types/orientation.h", "types/bvector.h"],
  [("hierarchy", "platforms/platform_model.cc update_internals()"), ("rotation", "types/orientation.cc")],
  technique=BE, note=BENOTE),
P("C12", "Sensor pairs exist exactly for each source and receiver that belong together",
  "After any sequence of adding, removing, replacing, and regrouping sensors, the sensor_manager holds exactly the pairs that its rules define: monostatic pairs of sensors that transmit and receive, and bistatic pairs between sources and receivers of the same multistatic group that is not zero, each with the right source, receiver, key, frequencies, and listeners, found by key, source, or receiver; rejected sensors leave nothing behind. "
  "Direct paths of a pair always lead from its source to its receiver, with the times, angles, and losses of the straight line in an isovelocity ocean, whichever of both sensors computed them.",
  ["inputs", "histories"], "every sequence of manager operations up to a depth on one to four sensors of every kind against a reference model; every geometry and order of updates in a lattice",
  "Tests build two or three pairs in one order and print the direct paths.",
  ["sensors/sensor_manager.cc", "sensors/sensor_pair.cc", "sensors/sensor_pair.h", "managed/manager_template.h"],
  [("pair creation", "sensors/sensor_manager.cc"), ("direct paths", "sensors/sensor_pair.cc update_wavefront_data()")],
  technique=BE, note=BENOTE),
P("C13", "Acoustics are recomputed exactly when motion requires it, for targets in range",
  "An update of a sensor, directly or through its host, starts a new calculation if it is forced, or if thresholds are tested and latitude, longitude, altitude, yaw, pitch, or roll differ from those of the last calculation by more than their thresholds (angles compared around the circle), or if an update was requested before; otherwise it only moves the sensor. "
  "The calculation is for exactly the platforms that are enabled as acoustic targets and lie between minimum and maximum range (zero for no limit), each once, with its identification and position; it is left out if there are no targets and no reverberation is requested. It applies the sensor's limits of bounces, time, and level.",
  ["inputs", "histories"], "every sequence of moves and update types up to a depth in every pair of coordinates; every set of three platforms at four ranges with every limit, flag, and product",
  "Tests force every update; accumulated small moves, the date line, and range limits never occur.",
  ["sensors/sensor_model.cc", "sensors/sensor_model.h", "platforms/motion_thresholds.cc", "wavegen/wavefront_generator.cc"],
  [("thresholds", "sensors/sensor_model.cc update_internals()"), ("targets", "sensors/sensor_model.cc find_targets()")],
  technique=BE, note=BENOTE),
P("C14", "Sequences hold the requested values; lookups agree with a linear search",
  "A linear, logarithmic, tabulated, ray fan, or augmented sequence has exactly the size and values that its arguments define, whichever constructor is used; forward and reverse iterators, clamped access, increments, and comparison agree with those values. "
  "find_index returns the interval that contains the value, limited to the first and last interval, and find_nearest the closest element, for increasing and decreasing sequences and values on, between, and outside of the elements. build_best and clip preserve the values they are given, and series that are not monotonic are rejected.",
  ["inputs"], "every sequence and query in a lattice of arguments: all constructors, sizes 1 to 8, both directions, every table of up to five values",
  "Tests use a few increasing sequences with sizes near ten; the errors are at single elements, zeros inside a series, decreasing series, and ratios.",
  ["types/seq_vector.cc", "types/seq_vector.h", "types/seq_linear.h", "types/seq_log.h", "types/seq_data.h", "types/seq_data.cc", "types/seq_rayfan.cc", "types/seq_augment.h"],
  [("lookup", "types/seq_*.h find_index()"), ("classification", "types/seq_vector.cc build_best()")],
  technique=BE, note=BENOTE),
P("C15", "Grid interpolation agrees with its definition in one to three dimensions",
  "A grid returns its data at the grid points, and between them the nearest element, the multi-linear combination, or the shape preserving piecewise cubic (PCHIP) that was selected per axis, for increasing, decreasing, and unevenly spaced axes. Points outside of an axis are limited to it exactly if its edge limit is on. Types that need more points than an axis has are reduced, and axes with a single element are constant. "
  "Derivatives along each axis agree with the interpolated surface (for cubic axes in gen_grid: the documented linear change between the slopes at both grid points), whether the value is asked for with or without them and in scalar or matrix form. The fast grids for bathymetry and profiles agree with the generic grid, their cubic surface meets the grid points, and write_netcdf stores axes and data in order.",
  ["inputs"], "every combination of axis kind, size, interpolation type, edge limit, and data pattern in a lattice, at points on, between, and outside of every grid point; every table of 4 or 5 values over a lattice for cubics",
  "Tests sample a few smooth functions on uniform axes with tolerances of percent; errors at end points, uneven axes, and mixed types stay inside of them.",
  ["types/data_grid.h", "types/gen_grid.h", "types/gen_grid_utils.h", "types/data_grid_bathy.h", "types/data_grid_svp.h"],
  [("recursive interpolation", "types/gen_grid.h interp()"), ("fast grids", "types/data_grid_bathy.h, types/data_grid_svp.h")],
  technique=BE, note=BENOTE),
P("C16", "Eigenray collections find, total, and dead reckon the rays they were given",
  "An eigenray_collection returns for each target exactly the eigenrays that were added for it, with the fastest arrival first in time as initial_time. Its coherent total is the sum of the complex pressures of the rays, its incoherent total the sum of their intensities, per frequency, with directions and counts of bounces taken from the intensity weighted averages and the strongest ray; directions average around the circle. "
  "Dead reckoning gives copies whose travel times, losses, phases, and directions follow the motion of the source and targets to first order, at any position and heading including the date line, and leaves the original unchanged. Listeners get every ray once, and files contain what the collection holds.",
  ["inputs"], "every set of up to three rays for up to three targets in a lattice of times, losses, phases, directions, and frequencies; every source and target motion in a lattice",
  "Tests total two rays with equal phase and dead reckon one geometry with tolerances of percent.",
  ["eigenrays/eigenray_collection.cc", "eigenrays/eigenray_collection.h", "eigenrays/eigenray_model.h", "types/wposition1.cc"],
  [("totals", "eigenrays/eigenray_collection.cc sum_eigenrays()"), ("dead reckoning", "eigenrays/eigenray_collection.cc dead_reckon()")],
  technique=BE, note=BENOTE),
P("C17", "Eigenverb searches return exactly the eigenverbs that overlap the search area",
  "An eigenverb_collection keeps each eigenverb under the interface it was added for. find_eigenverbs returns exactly the eigenverbs of that interface whose position lies in the search area of the given eigenverb: the rhombus whose half diagonals are its length and width times the search scale, along and across its direction, at any position on the earth including the date line. "
  "Files restore the collection that wrote them, interfaces without eigenverbs write no variables, and listeners get each eigenverb exactly once.",
  ["inputs"], "every search in a lattice of positions, directions, sizes, and offsets of the stored eigenverbs relative to the boundary of the search area, against an independent point in rhombus test; every small collection through files",
  "Tests search one area on the equator in which latitude and longitude can be swapped without notice.",
  ["eigenverbs/eigenverb_collection.cc", "eigenverbs/eigenverb_model.h", "eigenverbs/eigenverb_notifier.h", "types/wposition1.cc"],
  [("search", "eigenverbs/eigenverb_collection.cc find_eigenverbs()"), ("files", "eigenverbs/eigenverb_collection.cc read_netcdf(), write_netcdf()")],
  technique=BE, note=BENOTE),
P("C18", "Bistatic eigenverbs are the overlap of source and receiver eigenverbs",
  "Each bistatic eigenverb has the power of the product of both Gaussian eigenverbs integrated over the interface times scattering strength, and the duration of that overlap, for every size, direction, and offset; its travel time is the sum of both, and its angles, counts, indices, and frequencies are those of its source and receiver eigenverbs. Those whose strongest frequency is below the power threshold are left out, and they are ordered by travel time. "
  "The biverb_generator combines each receiver eigenverb with exactly the source eigenverbs that the search finds for it, on the same interface, with the scattering strength of that interface at its place and angles, and delivers one collection; files contain what the collection holds.",
  ["inputs"], "every size, direction, and offset of source and receiver in a lattice against Gaussians multiplied as matrices; every assignment of up to six eigenverbs to places and interfaces through the generator",
  "Tests count the biverbs of one monostatic geometry without looking at their power.",
  ["biverbs/biverb_collection.cc", "biverbs/biverb_generator.cc", "ocean/ocean_model.h"],
  [("overlap", "biverbs/biverb_collection.cc add_biverb()"), ("generator", "biverbs/biverb_generator.cc run()")],
  technique=BE, note=BENOTE),
P("C19", "Reverberation time series are the sum of all Gaussian contributions",
  "A reverberation time series starts at zero and has one row per receiver beam in the order of their numbers. Each eigenverb and pulse adds the documented Gaussian to it: eigenverb power interpolated to the transmit frequency, times pulse duration, source level, source beam, and receiver beam, each beam with the direction of the eigenverb in the coordinates of its array and its own steering; at every time within five durations of its arrival, and nowhere outside of the time axis. "
  "The generator adds every eigenverb of every interface for every pulse of the schedule, with pulses one after another and steering relative to the host, and delivers one result; beams changed meanwhile cause no errors. Files contain what the collection holds.",
  ["inputs"], "every orientation, time axis, frequency axis, set of beams, schedule of up to three pulses, and mounting in a lattice against the documented sum",
  "Tests compute one time series with omni-directional beams and do not look at its values.",
  ["rvbts/rvbts_collection.cc", "rvbts/rvbts_generator.cc", "beampatterns/bp_model.h", "types/bvector.h"],
  [("contribution", "rvbts/rvbts_collection.cc add_biverb()"), ("generator", "rvbts/rvbts_generator.cc run(), compute_src_steering()")],
  technique=BE, note=BENOTE),
P("C20", "Positions agree with spherical geometry and element-wise math with scalar math",
  "A world position returns the latitude, longitude, and altitude that it was given, from every constructor and accessor, scalar, element, and matrix, for any earth radius. Dot products, distances, areas of triangles and quadrilaterals, and directions agree with three dimensional vectors, in scalar and matrix form, also when points coincide or lie on a line. "
  "A position at a range and bearing lies that far along the great circle in that direction, and gc_range returns range and bearing between any two positions, across the date line, near the poles, and at any distance. Element-wise functions and operators of vectors, matrices, and scalars give for each element the value of the scalar function, for float, double, and complex elements.",
  ["inputs"], "every position, pair, triple, and quadruple of positions, range, and bearing in a lattice with poles and date line; every function and operator over a lattice of values and shapes",
  "Tests check one or two positions and a handful of values for each function.",
  ["types/wposition.h", "types/wposition.cc", "types/wposition1.h", "types/wposition1.cc", "types/wvector.cc", "types/wvector1.cc", "ublas/math_traits.h", "ublas/vector_math.h", "ublas/matrix_math.h"],
  [("great circles", "types/wposition1.cc gc_range()"), ("metrics", "types/wvector.cc, types/wvector1.cc"), ("element-wise math", "ublas/math_traits.h, ublas/scalar_math.h")],
  technique=BE, note=BENOTE),
P("C21", "Beam pattern levels agree with element sums, directivity with their integrals",
  "The level of every beam pattern for an arrival, frequency, sound speed, steering, and array orientation is the one that its definition gives: the weighted sum over elements for arrays and lines, their products for multiple patterns, the tabulated or analytic response for grids, pistons, dipoles, trigonometric and vector sensors, and one for omnidirectional ones, also when baffled. "
  "It is one in the direction of steering, it turns together with the orientation of the array, and it depends only on its arguments. The directivity index agrees with the integral of the squared level over the sphere, also where side lobes are as high as the main lobe. Builders of planar, line, cylindrical, and cube shaped arrays put elements where they are documented.",
  ["inputs"], "every model, steering, list of frequencies, sound speed, orientation, and arrival in a lattice; every number of elements up to the bound",
  "Tests look at one steering and frequency of each model, mostly without rotation.",
  ["beampatterns/bp_model.h", "beampatterns/bp_model.cc", "beampatterns/bp_arb.cc", "beampatterns/bp_line.cc", "beampatterns/bp_multi.cc", "beampatterns/bp_piston.cc", "beampatterns/bp_grid.h", "beampatterns/bp_trig.cc"],
  [("levels", "beampatterns/bp_arb.cc beam_level(), beampatterns/bp_multi.cc"), ("directivity", "beampatterns/bp_model.cc directivity()"), ("steering", "beampatterns/bp_model.cc"), ("builders", "beampatterns/bp_arb.cc")],
  technique=BE, note=BENOTE),
P("C22", "Transmitted waveforms have the documented phase, length, and window throughout",
  "A CW pulse advances its phase by its frequency and an LFM pulse sweeps linearly across its bandwidth, starting at the phase that the caller gives, and each sample is the window times the analytic signal at its time. The number of samples is the duration times the sampling rate, the phase at the end is handed on, and a pulse that starts from this phase continues without a step. "
  "Windows by type and by name agree with their definitions, are symmetric, and are defined for any number of points. A transmit model keeps the parameters that it was created with.",
  ["inputs"], "every pulse type, duration, sampling rate, frequency, bandwidth, phase, window, and window parameter in a lattice; every pair of pulses",
  "Tests generate a few waveforms and write them to files or compare a few numbers.",
  ["transmit/transmit_model.h", "transmit/transmit_cw.h", "transmit/transmit_cw.cc", "transmit/transmit_lfm.h", "transmit/transmit_lfm.cc", "ublas/vector_math.h"],
  [("CW", "transmit/transmit_cw.cc"), ("LFM", "transmit/transmit_lfm.cc"), ("windows", "ublas/vector_math.h")],
  technique=BE, note=BENOTE),
P("C23", "Environment models agree with their formulas in scalar and matrix form",
  "Sound speed profiles, attenuation, ambient noise, reflection loss, scattering strength, and boundary heights return at every location, frequency, and angle the value of the formula that they document, and gradients and normals are derivatives of the values. One location and matrices of locations agree, as do values that reach the caller through boundaries, profiles, volumes, and the ocean for each of its interfaces. "
  "The results do not depend on the previous contents of the outputs nor on objects that were only used for construction. The isovelocity ocean has the depth and bottom loss asked for.",
  ["inputs"], "every model, location, frequency band, wind speed, shipping level, rain rate, sediment, grazing and scattering angle, and grid in a lattice; every way to reach a model",
  "Tests check a few depths and angles of each model, scalar or matrix form but rarely both.",
  ["ocean/profile_model.cc", "ocean/profile_linear.cc", "ocean/profile_munk.cc", "ocean/profile_n2.cc", "ocean/profile_catenary.cc", "ocean/profile_grid.h", "ocean/data_grid_mackenzie.h", "ocean/attenuation_thorp.cc", "ocean/ambient_wenz.cc", "ocean/reflect_loss_rayleigh.cc", "ocean/reflect_loss_eckart.h", "ocean/reflect_loss_beckmann.cc", "ocean/scattering_lambert.h", "ocean/scattering_chapman.h", "ocean/boundary_grid.h", "ocean/boundary_slope.cc", "ocean/ocean_model.h"],
  [("speed and gradient", "ocean/profile_*.cc sound_speed()"), ("loss", "ocean/reflect_loss_*.cc, ocean/attenuation_*.cc"), ("scattering", "ocean/scattering_*.cc"), ("height and normal", "ocean/boundary_*.cc, ocean/boundary_*.h")],
  technique=BE, note=BENOTE),
P("C24", "Grids read from files carry the values of the file at their coordinates",
  "A window of a bathymetry or profile data base covers the latitudes and longitudes asked for, in the longitude convention of the caller, and every grid point has the value which the file stores at that latitude, longitude, depth, and nearest date: for global files from 0 or from -180 degrees, centered on cells or not, with or without a repeated last column, and for regional files, also for windows across longitude 0 or 180. "
  "Packed and missing values are decoded; filling replaces missing values only, with averages of the surface or of the gradients of other columns, and leaves no gaps. Atlas data takes shallow depths from the monthly file. Whole netCDF grids, ASCII bathymetry, and ASCII profiles are read with axes in the documented order, whatever the separators. A file without the requested variable is rejected.",
  ["inputs"], "every file layout and window in a lattice, every packing, date, and variable name; every combination of valid depths of small grids; every small ASCII file layout",
  "Tests read a few windows from real data sets and only the ones that are present.",
  ["netcdf/netcdf_bathy.cc", "netcdf/netcdf_profile.cc", "netcdf/netcdf_woa.cc", "netcdf/netcdf_coards.h", "ocean/ascii_arc_bathy.cc", "ocean/ascii_profile.cc"],
  [("windows", "netcdf/netcdf_bathy.cc, netcdf/netcdf_profile.cc"), ("missing values", "netcdf/netcdf_profile.cc fill_missing()"), ("whole grids", "netcdf/netcdf_coards.h"), ("text files", "ocean/ascii_arc_bathy.cc, ocean/ascii_profile.cc")],
  technique=BE, note=BENOTE),
P("C25", "Acoustic rays obey Snell's law, bounces, and losses",
  "Every ray of a wave front is, at every step, where the independent solution of the ray equations on the round earth puts it: position, direction, path length, and sound speed in linear, n2, Munk, and catenary profiles, and straight lines reflected specularly between the surface and flat, sloping, and uneven bottoms, whatever the time step. "
  "Bounces and vertices are counted once each, boundary and absorption losses add up along the path, phase changes are those of the bounces and caustics, and reflection listeners hear of each bounce with its time, place, incident direction, grazing angle, and sound speed. "
  "Eigenverb listeners get exactly one eigenverb for every meeting of a ray with the surface, the bottom, or a volume layer after the first step, but none above the thresholds or from duplicate rays of a full circle; its time, place, heading, grazing angle, launch angles, counts, power, length, and width follow from the path up to that meeting.",
  ["inputs", "histories"], "every profile, bottom, source depth, place, fan, time step, layer set, and threshold in a lattice; every ray at every step",
  "Tests follow a few rays for one profile and one fan, with loose tolerances.",
  ["waveq3d/wave_queue.cc", "waveq3d/wave_front.cc", "waveq3d/reflection_model.cc", "waveq3d/ode_integ.h", "waveq3d/wave_thresholds.h", "eigenverbs/eigenverb_model.h"],
  [("rays", "waveq3d/wave_queue.cc step(), waveq3d/wave_front.cc"), ("reflections", "waveq3d/reflection_model.cc"), ("eigenverbs", "waveq3d/wave_queue.cc build_eigenverb(), detect_volume_scattering()")],
  technique=BE, note=BENOTE),
P("C26", "Eigenrays are exactly the acoustic paths between source and target",
  "Each acoustic path from the source to a target within the launch fan and travel time is found exactly once as an eigenray, for either spreading model, and there are no eigenrays besides: its travel time, launch and arrival angles, counts of bounces and vertices, phase, and intensity (geometric spreading, absorption, and boundary losses) agree with the path that an independent solution of the ray equations finds by shooting, for every range, depth, and bearing of the target, including across the date line, and fans that are narrow or a full circle, away from caustics and boundary contacts. "
  "Limits on bounces, caustics, vertices, and intensity remove exactly the eigenrays that exceed them and change no other; the eigenrays of a target do not depend on which other targets or listeners there are, every listener gets each of them once until it is removed, and is told the time at the end of each step.",
  ["inputs", "histories"], "every profile, bottom, source, fan, spreading model, time step, target, and limit in a lattice",
  "Tests follow one or two paths of one geometry; most write the eigenrays to files without comparing them.",
  ["waveq3d/wave_queue.cc", "waveq3d/wave_front.cc", "waveq3d/spreading_ray.cc", "waveq3d/spreading_hybrid_gaussian.cc", "waveq3d/wave_thresholds.h", "waveq3d/wave_queue.h"],
  [("closest point of approach", "waveq3d/wave_queue.cc detect_eigenrays(), is_closest_ray(), build_eigenray(), compute_offsets()"), ("distances to targets", "waveq3d/wave_front.cc compute_target_distance()"), ("intensity", "waveq3d/spreading_ray.cc, waveq3d/spreading_hybrid_gaussian.cc")],
  technique=BE, note=BENOTE),
]
NOT_APPLICABLE = []
