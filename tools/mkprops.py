#!/usr/bin/env python3
"""writes properties.jsonl"""
import json, os
P = []
def p(id, title, statement, text, tests, files, mech, observe, over=("inputs",)):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=tests,
                  anchors=dict(files=files.split(), mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

p("C01", "Coordinate conversions, distances and directions are consistent",
  "Latitude, longitude and altitude map to spherical earth coordinates and back without loss for single points and for matrices of points. Distances, dot products, direction vectors and the local/geocentric direction conversions equal their Cartesian definitions, and element (i,j) of every matrix operation equals the single point operation on element (i,j). The local earth radius is the Gaussian radius of curvature of the WGS84 ellipsoid.",
  "every position with latitude strictly inside the poles, every longitude and altitude, every earth radius; every pair of points or directions",
  "tests convert a handful of points near one location and compare the printed values",
  "types/wposition.h types/wposition.cc types/wposition1.h types/wposition1.cc types/wvector.h types/wvector.cc types/wvector1.h types/wvector1.cc",
  [("latitude/longitude/altitude accessors", "types/wposition.h, types/wposition1.h"), ("dot, distance, direction, geocentric conversion", "types/wvector1.cc, types/wvector.cc"), ("compute_earth_radius", "types/wposition.cc")],
  ["accessors of the position and vector classes"])
p("C02", "Great circle range, bearing and direct position agree",
  "The great circle range between two points is the earth radius times the central angle and the bearing is the initial azimuth of that arc, for every pair of points. Moving from a point by a range and bearing lands at the point whose central angle and initial azimuth are those values.",
  "every pair of start and end points, including the equator and the date line, every range and bearing",
  "tests check a few routes in mid latitudes; the equator and the quadrants of the bearing are not reached",
  "types/wposition1.cc types/wposition1.h", [("gc_range, gc_bearing, constructor from range and bearing", "types/wposition1.cc")], ["wposition1::gc_range/gc_bearing and the direct constructor"])
p("C03", "Orientation angles compose and rotate consistently",
  "Heading, pitch and roll always describe the same attitude as the yaw, tilt and direction angles and rotation matrix kept next to them, after construction, copy, composition and after changing any one angle. Rotating a direction into the body frame is an orthogonal transformation: it preserves length and angles, and the zero orientation is the identity.",
  "every heading, pitch, roll and every sequence of setters, every rotated vector and every composition",
  "tests compare a few fixed angles to reference values",
  "types/orientation.h types/orientation.cc", [("constructors, setters, apply_rotation, update_orientation", "types/orientation.cc, types/orientation.h")], ["orientation accessors and rotate()"], ("inputs", "histories"))
p("C04", "Sequence axes index, find and iterate exactly",
  "Every axis (linear, logarithmic, arbitrary, ray fan, best fit) reports element k, its increments, minimum and maximum consistently for every k, whatever its length, first value, step sign or copies made. Looking up a value yields the interval that contains it, with values outside clamped to the first or last interval, and nearest lookup yields an element of least distance. Clipping keeps exactly the elements inside the clip limits, and forward and reverse iteration visit every element once.",
  "every axis length, start, spacing (positive or negative) and every looked-up value, inside or outside the axis",
  "tests use short hand-picked axes and interior values",
  "types/seq_vector.h types/seq_vector.cc types/seq_linear.h types/seq_log.h types/seq_data.h types/seq_data.cc types/seq_rayfan.h types/seq_rayfan.cc",
  [("value, increment, find_index, find_nearest, clip, build_best", "types/seq_*.h, types/seq_*.cc")], ["seq_vector interface"])
p("C05", "Gridded data interpolation reproduces and bounds its data",
  "At every grid point, interpolation of every kind returns the stored value, and between grid points nearest returns an adjacent stored value, linear the multilinear blend of the surrounding corners with its exact partial derivatives, and the piecewise cubic a smooth monotone curve through the stored values. Outside the grid, with edge limiting the value is that of the nearest edge, and lookups never read outside the stored data. The fast specialised grids for profiles and bathymetry return the values of the general grid they replace, with the exact partial derivatives of those values.",
  "every axis spacing, data set, interpolation type per axis, and every location inside, on or outside the grid",
  "tests interpolate a few analytic functions at a few interior points",
  "types/data_grid.h types/gen_grid.h types/gen_grid_utils.h types/data_grid_svp.h types/data_grid_bathy.h",
  [("interpolate, interp recursion, linear, pchip", "types/gen_grid.h, types/data_grid_svp.h, types/data_grid_bathy.h")], ["interpolate() value and derivative"])
p("C06", "Sound speed profiles and their gradients are mutually consistent",
  "For every profile model the reported sound speed equals its defining formula at every depth, and the reported gradient is the exact derivative of that speed with respect to radius (and to latitude and longitude for gridded profiles). With the flat earth option the speed is scaled by local radius over earth radius, and the gradient includes the scaling. The attenuation of a profile is the one of its attenuation model.",
  "every depth, profile parameter set and matrix shape, with and without the flat earth option",
  "tests compare speeds and gradients at sampled depths for one parameter set",
  "ocean/profile_model.h ocean/profile_model.cc ocean/profile_linear.h ocean/profile_linear.cc ocean/profile_munk.h ocean/profile_munk.cc ocean/profile_n2.h ocean/profile_n2.cc ocean/profile_catenary.h ocean/profile_catenary.cc ocean/profile_grid.h ocean/data_grid_mackenzie.h",
  [("sound_speed, flat_earth", "ocean/profile_*.cc, ocean/profile_grid.h")], ["profile_model::sound_speed outputs"])
p("C07", "Boundary heights, normals and slopes agree",
  "Every boundary reports the height its definition gives at each location (a constant depth; a depth that changes by the tangent of the slope angles times the distance along each axis from the reference point; the interpolated grid value) and a unit length normal. The normal of a bottom points up; for a flat boundary it is exactly vertical (down for the ocean surface at zero depth); for a gridded bottom it is perpendicular to the tangent plane given by the interpolated height and slopes; for a sloping bottom it has the sines of the slope angles as its horizontal components, so that it is perpendicular to the bottom for a slope along one axis. Single point and matrix queries agree. The reflection loss and scattering strength of a boundary or layer are those of its attached model.",
  "every location, flat depth, slope pair and gridded height field",
  "tests sample a few points of a flat and a sloped bottom",
  "ocean/boundary_model.h ocean/boundary_flat.h ocean/boundary_flat.cc ocean/boundary_slope.h ocean/boundary_slope.cc ocean/boundary_grid.h ocean/volume_flat.h ocean/volume_model.h",
  [("height(), reflect_loss(), scattering()", "ocean/boundary_*.h, ocean/boundary_*.cc, ocean/volume_flat.h")], ["boundary_model::height outputs"])
p("C08", "Reflection loss follows its physical law and is never a gain",
  "The reflection loss of every bottom and surface model equals its published formula (Rayleigh fluid and elastic bottoms, Eckart surface, Beckmann-Spizzichino, constant) in decibels for every frequency and grazing angle. Loss is never negative for a fluid bottom, lossless or lossy, it is zero beyond the critical angle of a lossless one, and the reflection phase is that of the complex reflection coefficient.",
  "every grazing angle, frequency, density and speed ratio, attenuation and wind speed",
  "tests compare curves for a few named sediment types",
  "ocean/reflect_loss_model.h ocean/reflect_loss_constant.h ocean/reflect_loss_rayleigh.h ocean/reflect_loss_rayleigh.cc ocean/reflect_loss_eckart.h ocean/reflect_loss_beckmann.cc ocean/wave_height_pierson.h",
  [("reflect_loss()", "ocean/reflect_loss_*.cc, *.h")], ["reflect_loss amplitude and phase outputs"])
p("C09", "Scattering strengths follow their laws and are reciprocal in angle",
  "Interface and volume scattering strengths (Lambert, Chapman-Harris, constant) equal their published formulas for every frequency and pair of angles, and are returned for each frequency in linear units. Lambert scattering is symmetric in incident and scattered angle; single and matrix forms agree.",
  "every frequency set, incident and scattered grazing angle and azimuth, wind speed and layer depth and thickness",
  "tests evaluate a handful of angles",
  "ocean/scattering_model.h ocean/scattering_constant.h ocean/scattering_lambert.h ocean/scattering_chapman.h ocean/volume_flat.h",
  [("scattering()", "ocean/scattering_*.h, ocean/volume_flat.h")], ["scattering output vectors"])
p("C10", "Absorption and ambient noise follow their formulas at every frequency",
  "The absorption over a path equals the Thorp formula (with its depth correction) times distance, or the constant coefficient times distance, for every frequency, depth and distance, and is linear in distance and never negative. The ambient noise level equals the power sum of the Wenz shipping, wind, rain and thermal terms for every frequency and setting.",
  "every frequency, depth, distance, sea state, shipping and rain level",
  "tests compare a few frequencies to a table",
  "ocean/attenuation_thorp.cc ocean/attenuation_thorp.h ocean/attenuation_constant.cc ocean/attenuation_constant.h ocean/ambient_wenz.cc ocean/ambient_wenz.h ocean/ambient_constant.h",
  [("attenuation()", "ocean/attenuation_*.cc"), ("ambient()", "ocean/ambient_wenz.cc")], ["attenuation and ambient outputs"])
p("C11", "Ray derivatives and time integration are exact to their order",
  "The position, direction and distance derivatives of every ray equal the spherical Hamiltonian ray equations for the local sound speed and gradient, and keep direction times speed a conserved unit vector to first order. The start-up and Adams-Bashforth integration formulas integrate every polynomial of their order exactly, so each propagation step has the documented order of accuracy.",
  "every ray state, speed and gradient field, and every time step",
  "tests compare ray paths to reference curves for a few profiles within metres",
  "waveq3d/wave_front.cc waveq3d/wave_front.h waveq3d/ode_integ.cc waveq3d/ode_integ.h waveq3d/wave_queue.cc",
  [("compute_derivatives, compute_profile", "waveq3d/wave_front.cc"), ("rk1, rk2, rk3, ab3", "waveq3d/ode_integ.cc")], ["wave_front arrays after an update", "ode_integ results"])
p("C12", "Rays reflect specularly from every boundary",
  "When a ray crosses the surface or bottom, it reflects where its interpolated path meets the boundary: the reflected direction is the mirror image of the incident direction about the local boundary normal (about the horizontal part of that normal where the water is too shallow for a time step), the wave fronts around that ray are rebuilt from the point of reflection along the reflected path with the documented integration steps, and the counters, loss and phase of exactly that ray are updated once, with the loss and phase of the boundary at the grazing angle of the ray. Rays that do not cross a boundary, and rays that do not head for the surface, are left unchanged by the boundary processing. (Rays that approach the bottom slower than the built in floor of 6 m/s are outside this guarantee.)",
  "every incident direction, boundary height and normal, and position of the crossing inside the time step",
  "tests follow a few rays over flat and sloped bottoms",
  "waveq3d/reflection_model.cc waveq3d/reflection_model.h",
  [("bottom_reflection, surface_reflection, reflection_copy", "waveq3d/reflection_model.cc")], ["wave fronts after a step", "reflection listeners"])
p("C13", "Beam patterns follow their array formulas",
  "The gain of every beam pattern equals its array response formula at every frequency, sound speed, steering and arrival direction, is one on the main response axis, and zero behind a baffle. Directivity gains equal their formulas; product and sum patterns combine their components; a rotated array hears arrivals in its own coordinates; array layouts place every element.",
  "every arrival and steering direction, frequency, sound speed, element count and spacing",
  "tests compare a few cuts of a few arrays",
  "beampatterns/bp_omni.cc beampatterns/bp_cardioid.cc beampatterns/bp_trig.cc beampatterns/bp_line.cc beampatterns/bp_planar.cc beampatterns/bp_piston.cc beampatterns/bp_solid.cc beampatterns/bp_gaussian.cc beampatterns/bp_multi.cc beampatterns/bp_arb.cc beampatterns/bp_grid.cc beampatterns/beampattern_utilities.cc",
  [("beam_level, directivity", "beampatterns/*.cc")], ["beam_level and directivity outputs"])
p("C14", "Transmit waveforms and windows follow their definitions",
  "Generated continuous wave and frequency modulated waveforms have one sample per sampling period of the pulse, and each sample is the library's analytic signal (sine in the real part, cosine in the imaginary part) of the instantaneous phase of their definition, shaded by the window. Every shading window equals its published coefficients for every length and sample, is symmetric and at most one. Source level, duration, bandwidth and delay are reported as given.",
  "every duration, frequency, bandwidth, sampling rate and window length",
  "tests compare a couple of waveforms to reference arrays",
  "transmit/transmit_model.h transmit/transmit_model.cc transmit/transmit_cw.h transmit/transmit_cw.cc transmit/transmit_lfm.h transmit/transmit_lfm.cc transmit/window.h",
  [("generate", "transmit/transmit_cw.cc, transmit/transmit_lfm.cc"), ("window functions", "transmit/window.h")], ["samples of the generated signals"])
p("C15", "Eigenray collections keep, sum and rebase every eigenray",
  "Every eigenray added to a collection is returned for exactly its target, in order, with all attributes, also when looked up by target identification, and the total is their power or coherent sum per frequency with the first arrival's time. Dead reckoning to new source and target positions changes only the attributes it must, by the travel time and phase the motion along each ray implies. Every registered listener gets every eigenray.",
  "every set of targets, eigenrays, frequencies and position changes",
  "tests check one target and one set of eigenrays",
  "eigenrays/eigenray_collection.cc eigenrays/eigenray_collection.h eigenrays/eigenray_model.h eigenrays/eigenray_notifier.cc",
  [("add_eigenray, find_eigenrays, sum_eigenrays, dead_reckon", "eigenrays/eigenray_collection.cc")], ["eigenray lists and totals"], ("inputs", "histories"))
p("C16", "Reverberation is built from every overlapping pair of patches, with the right energy",
  "Eigenverbs are kept, counted and listed by interface (bottom, surface, two for each volume layer), and the search around a patch finds exactly those whose centers are inside its search area. The bistatic eigenverbs of a pair are every receiver patch combined with every source patch of the same interface near it, with that interface's scattering from the source to the receiver direction. A combination has the round trip time, ray angles and history of its two patches, the Gaussian product of their two footprints wherever they lie and however they are turned, and the duration of that product; it is kept in its interface when it is strong enough. Each pulse of the transmit schedule, steered relative to the host platform, is combined with each bistatic eigenverb once; it adds source level times power times transmit and receive beam levels at its travel time, frequency and receiver channel, spread over its duration so that its energy is preserved, and contributions add up. An aborted task computes and announces nothing; a finished one announces its result.",
  "every pair of patches, powers, lengths, widths, directions and frequencies, every sensor orientation and steering, every set of contributions and travel times",
  "tests check one geometry each and compare envelopes by eye or to 1 dB",
  "eigenverbs/eigenverb_collection.cc eigenverbs/eigenverb_collection.h eigenverbs/eigenverb_model.h biverbs/biverb_collection.cc biverbs/biverb_collection.h biverbs/biverb_generator.cc rvbts/rvbts_collection.cc rvbts/rvbts_collection.h rvbts/rvbts_generator.cc",
  [("add_eigenverb, find_eigenverbs", "eigenverbs/eigenverb_collection.cc"), ("add_biverb, compute_overlap", "biverbs/biverb_collection.cc"), ("run", "biverbs/biverb_generator.cc, rvbts/rvbts_generator.cc"), ("add_biverb, compute_src_steering", "rvbts/rvbts_collection.cc, rvbts/rvbts_generator.cc")],
  ["eigenverb and biverb lists, time series"], ("inputs", "histories"))
p("C17", "Platform motion and host-relative placement are kinematically exact",
  "Updating a platform stores the given time, position, orientation and speed, or moves it along its heading by speed times elapsed time, and every attached platform or sensor, at any depth, is placed at its host's position plus its own offset rotated by the host's orientation, with the composed orientation and the host's time and speed, until it is removed. A sensor starts a new acoustic calculation, for exactly the acoustic targets within its range limits and with its own settings, when, and only when, forced, first used, or its latitude, longitude, altitude, heading, pitch or roll changed by the motion thresholds or more since the last calculation (angles compared across their wrap).",
  "every sequence of updates, offsets, thresholds and attachments",
  "tests move one platform a few times",
  "platforms/platform_model.h platforms/platform_model.cc platforms/motion_thresholds.h platforms/platform_manager.cc sensors/sensor_model.cc managed/update_notifier.h",
  [("update, attach, update host", "platforms/platform_model.cc")], ["platform accessors and wavefront task requests"], ("inputs", "histories"))
p("C18", "Managers keep exactly the objects and sensor pairs implied by their history",
  "After every sequence of adds and removes a manager finds exactly the objects added and not removed, keys are unique, and listeners are told once per add and remove. The set of sensor pairs is exactly the set of source and receiver combinations that are the same sensor (without a minimum range) or share a multistatic group, with no pair left behind when a sensor is removed. Each pair keeps the direct paths from its source to its receiver, whichever of the two was updated, starts the bistatic and time series calculations when their inputs are there, cancels superseded ones, and tells its listeners once the last calculation that applies is done.",
  "every history of additions, removals and mode changes",
  "tests run one script of additions and removals",
  "managed/manager_template.h sensors/sensor_manager.cc sensors/sensor_manager.h sensors/sensor_pair.cc sensors/sensor_pair.h",
  [("add, remove, find", "managed/manager_template.h"), ("add_sensor, remove_sensor and pair bookkeeping", "sensors/sensor_manager.cc")], ["find, list and find_pair queries"], ("histories",))
p("C19", "Elementwise vector and matrix math equals scalar math in every cell",
  "Every elementwise vector and matrix function gives, in every cell, the scalar function of the operands' cells, for real and complex values and for every shape. Derived scalar functions (unit conversions, decibel conversions, inverse hyperbolic and angle helpers, copysign, rounding limits) satisfy their defining identities.",
  "every vector and matrix size and every element value",
  "tests use one small vector per function",
  "ublas/vector_math.h ublas/matrix_math.h ublas/math_traits.h ublas/scalar_math.h",
  [("function templates", "ublas/vector_math.h, ublas/matrix_math.h, ublas/math_traits.h")], ["result elements"])
p("C20", "Spreading loss follows the beam and ray tube laws",
  "The classic ray spreading loss is the ratio of ray tube areas between the target and one metre from the source, scaled by sound speed. The hybrid Gaussian loss is the sum of Gaussian beam contributions with widths that combine the ray spacing and the minimum width of one wavelength scale, is never negative, and is symmetric about each ray's axis.",
  "every ray fan geometry, target offset, frequency and sound speed",
  "tests compare total loss along a few ranges to within a fraction of a dB",
  "waveq3d/spreading_model.h waveq3d/spreading_ray.cc waveq3d/spreading_ray.h waveq3d/spreading_hybrid_gaussian.cc waveq3d/spreading_hybrid_gaussian.h",
  [("intensity, gaussian, width", "waveq3d/spreading_*.cc")], ["intensity returned to the eigenray detector"])
p("C21", "Closest approach and caustics are detected and located exactly once",
  "An eigenray is reported for a target exactly when the squared distance from the target to the wavefront has a local minimum in time, launch elevation and launch azimuth at a ray inside the fan, and the reported time, angles and offsets are the minimum of the quadratic through the neighbouring samples. Vertices and caustics are counted exactly when the vertical direction or the ray tube orientation changes sign, and reflected and folded families of rays are separated by their reflection and caustic counts.",
  "every wavefront geometry, target position and history of steps",
  "tests compare eigenray tables for a few fixed targets",
  "waveq3d/wave_queue.cc waveq3d/wave_queue.h waveq3d/wave_front.cc waveq3d/wave_thresholds.h",
  [("detect_eigenrays, is_closest_ray, compute_offsets, detect_vertices, detect_caustics, find_edges", "waveq3d/wave_queue.cc, waveq3d/wave_front.cc")], ["eigenrays delivered to listeners", "edge, vertex and caustic counts"], ("inputs", "histories"))
p("C22", "Shared objects and background tasks are safe under every schedule",
  "Readers of a shared environment, platform, sensor or task result never see a partly updated object, however readers, writers and worker threads interleave. A task that is aborted or whose controller is deleted never runs afterwards, and every task that is not aborted runs exactly once.",
  "every interleaving of readers, writers, task launches, aborts and shutdown",
  "tests run a few threads with timing chosen by the scheduler",
  "threads/thread_pool.cc threads/thread_pool.h threads/thread_task.cc threads/thread_task.h threads/thread_controller.cc threads/read_write_lock.h ocean/ocean_shared.cc",
  [("task queue and locks", "threads/*.cc, threads/*.h"), ("shared ocean reference", "ocean/ocean_shared.cc")], ["task completion and values read"], ("schedules",))
p("C23", "Files written by the library read back as the same data",
  "Profiles, bathymetry, eigenrays, eigenverbs and wavefronts written to disk read back as the same values with the same axes, and a malformed or truncated file is reported rather than yielding a partly filled grid.",
  "every stored grid and collection, and every file content",
  "tests read a few bundled files",
  "netcdf/netcdf_bathy.cc netcdf/netcdf_profile.cc netcdf/netcdf_coards.h eigenrays/eigenray_collection.cc eigenverbs/eigenverb_collection.cc waveq3d/wave_queue_netcdf.cc ocean/ascii_arc_bathy.cc ocean/ascii_profile.cc",
  [("readers and writers", "netcdf/*.cc, write_netcdf in collections")], ["values read back"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
