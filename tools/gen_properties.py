"""Writes properties.jsonl from the table below (kept in one place so ids stay stable)."""
import json, os
S = "src/openspace/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[S + f for f in files], state=[dict(name=n, meaning=m, where=S + w) for n, m, w in state],
                     mechanism=[dict(name=n, where=S + w) for n, w in mech], observe_at=observe, hook_needed=None)))

p("C01", "Calendar dates and epoch arithmetic are exact",
  "For every proleptic Gregorian date and time of day (years 1 to 9999), the epoch built from it carries the true modified Julian date, so later instants always have larger values across month ends, leap days and century years. Julian date, Julian centuries past J2000 and shifting by any positive or negative number of days are exact offsets of that value, to floating-point resolution. None of these change the epoch they are asked of.",
  ["inputs"], "every calendar date/time in years 1..9999, every epoch value, every day offset including zero, negative and fractional",
  "The two time tests look at one date in December 2022; the January/February branch, leap days, century rules, and offsets are never exercised.",
  ["time.py", "math/functions.py"], [("calendar to MJD formula", "time.py Epoch.from_gregorian"), ("hms to day fraction", "math/functions.py Conversions.hms_to_decimal_day")],
  ["Epoch.from_gregorian(...).value", "Epoch.julian_value()", "Epoch.julian_centuries_past_j2000()", "Epoch.plus_days(t)"])

p("C02", "Greenwich sidereal angle is right and continuous at every epoch",
  "At every epoch the Greenwich hour angle lies in [0, 2*pi) and equals Greenwich mean sidereal time of the corresponding UTC instant (terrestrial time minus 69.184 s). It advances uniformly by 360.98564724 degrees per day with no jump when the UTC day rolls over, before and after J2000 alike.",
  ["inputs", "histories"], "every epoch from 1900 to 2100, in particular pairs of epochs straddling UTC midnight and multi-day sequences",
  "One epoch is compared to five decimals; nothing looks at day rollover, early dates or the range of the result.",
  ["time.py"], [("sidereal time polynomial plus day fraction", "time.py Epoch.greenwich_hour_angle")], ["Epoch.greenwich_hour_angle()"])

p("C03", "Vector and matrix operations are exact linear algebra",
  "Every vector and matrix operation of the package (sums, differences, dot, cross and scalar products, magnitudes, columns, diagonals, transposes, matrix-vector and matrix-matrix products of all supported shapes, determinant, cofactors, adjugate, inverse, identity) gives the mathematically defined result for every operand, to floating-point rounding. Printing a vector shows its components to six decimals. In particular an invertible 3x3 matrix times its inverse is the identity and transposing twice restores the matrix.",
  ["inputs"], "all finite vectors and all non-singular matrices, including asymmetric ones, zero and negative entries, and mixed magnitudes",
  "Only a few 3-vector operations are tested, each on one or two operands; no matrix operation is tested at all.",
  ["math/linalg.py"], [("vector/matrix classes", "math/linalg.py Vector3D, Vector6D, Matrix3D, Matrix3by6, Matrix6by3, Matrix6D")],
  ["return values of every public operation of the linear-algebra module"])

p("C04", "Rotations, angles and noise respect Euclidean geometry",
  "Rotating a vector about any non-zero axis is a proper right-handed rotation by the given angle: lengths, dot products and the axis are preserved, rotations about one axis add, and the reverse rotation undoes it. Normalising gives a parallel unit vector, and the angle between two vectors is symmetric, lies in [0, pi] and does not depend on their lengths. Magnitude noise keeps direction and is Gaussian with the given sigma about the true length; angular noise keeps length and tilts by a Gaussian angle of the given sigma in a uniformly random direction.",
  ["inputs", "histories"], "all non-zero vectors and axes (including axis-aligned, parallel, opposite, very long and very short), all angles of either sign, all sigmas and random streams",
  "One vector, one axis and one 25 degree rotation are tested; the angle and noise functions are not tested.",
  ["math/linalg.py"], [("axis-angle matrix", "math/linalg.py Vector3D.rotation_matrix"), ("clamped arc cosine", "math/linalg.py Vector3D.angle"), ("noise", "math/linalg.py Vector3D.with_noise")],
  ["Vector3D.rotation_about_axis", "Vector3D.angle", "Vector3D.normalized", "Vector3D.with_noise / with_magnitude_noise / with_angular_noise"])

p("C05", "Conic-section and unit formulas agree with one another",
  "For every ellipse and every central body, all ways the package offers to compute semi-major axis, semi-minor axis, semi-parameter, eccentricity, flattening, radius, speed, energy, areal velocity, period and mean motion give the values of that one ellipse. Circular orbits (eccentricity 0, even when rounding makes the semi-parameter equal or exceed the semi-major axis) give eccentricity 0 instead of failing. Sign, unit constants, hours-minutes-seconds and degrees-minutes-seconds conversions are exact.",
  ["inputs"], "all a > 0, 0 <= e < 1, true anomalies over a full revolution and gravitational parameters of small and large bodies",
  "Each formula is evaluated at a single point, several of them at e = 0 or nu = 0 where terms vanish.",
  ["math/functions.py"], [("static equation classes", "math/functions.py EquationsOfMotion members"), ("unit conversions", "math/functions.py Conversions, sign")],
  ["return values of the equation helpers"])

p("C06", "Kepler's equation and orbital angles are solved for every anomaly",
  "For every eccentricity from 0 up to 0.99 and every mean anomaly of either sign, solving for the eccentric anomaly terminates and the result satisfies Kepler's equation modulo a full turn. True, eccentric and mean anomaly conversions invert each other through all quadrants, and node, argument of latitude, argument of perigee and anomalies are reported in [0, 2*pi] and inclination in [0, pi].",
  ["inputs"], "0 <= e <= 0.99, mean anomaly in [-2 pi, 2 pi] (several revolutions for e <= 0.9), every quadrant and the quadrant boundaries",
  "Kepler's equation is tested at M = 1, e = 0.2; the negative-anomaly and M > pi starting branches, wrap-arounds and high eccentricities are never run, and no test can show the iteration always stops.",
  ["math/functions.py"], [("Newton iteration", "math/functions.py EccentricAnomaly.from_ma_e"), ("wrapping to positive angles", "math/functions.py TrueAnomaly, ArgumentOfPerigee, ArgumentOfLatitude, RightAscensionNode, MeanAnomaly")],
  ["EquationsOfMotion.EA / NU / MA / W / U / RAAN / I"])

p("C07", "Orbital elements and Cartesian states describe the same orbit",
  "Converting any bound Earth orbit from a Cartesian state to classical elements and back returns the same epoch, position and velocity, and converting elements to a state and back returns the same elements wherever they are defined, for circular, equatorial, polar and retrograde orbits too. The elements have the physical meaning of their names: semi-major axis from energy, eccentricity and perigee direction from the eccentricity vector, plane from the angular momentum.",
  ["inputs"], "all bound orbits with 0 <= e <= 0.95, inclinations in [0, pi] including exactly 0 and pi, all node, perigee and anomaly angles",
  "One inclined eccentric state is converted in one direction; circular and equatorial orbits raised or returned the wrong place until repaired here.",
  ["coordinates/elements.py", "math/functions.py"], [("state to elements", "coordinates/elements.py ClassicalElements.from_ijk"), ("elements to state", "coordinates/elements.py ClassicalElements.to_ijk")],
  ["ClassicalElements.from_ijk", "ClassicalElements.to_ijk", "ClassicalElements.perigee_vector / semilatus_rectum_vector / eccentric_anomaly"])

p("C08", "Geodetic, spherical and topocentric conversions are faithful inverses",
  "Geodetic latitude, longitude and altitude convert to Earth-fixed coordinates on the reference ellipsoid and back without loss for every point from 100 km below the surface to beyond geosynchronous height, at the poles, the equator and every longitude, with latitude in [-pi/2, pi/2] and longitude in [0, 2*pi]. Spherical coordinates convert to Cartesian and back with right ascension in [0, 2*pi] and declination in [-pi/2, pi/2]. The east-north-zenith axes at any site are orthonormal, zenith is the ellipsoid normal, and vectors taken to that frame and back are unchanged.",
  ["inputs"], "all latitudes, longitudes and altitudes in range, all non-zero Cartesian vectors, all site-relative vectors",
  "A single mid-latitude site is round-tripped; near the poles the conversion raised an error until repaired here.",
  ["coordinates/positions.py", "bodies/terrestrial.py"], [("closed-form geodetic inversion", "coordinates/positions.py PositionConvert.itrf.to_lla"), ("ellipsoid forward formula", "coordinates/positions.py PositionConvert.lla.to_itrf"), ("ENZ matrix", "coordinates/positions.py ENZ.matrix"), ("site", "bodies/terrestrial.py GroundSite")],
  ["PositionConvert.lla.to_itrf", "PositionConvert.itrf.to_lla", "SphericalPosition.from_cartesian / to_cartesian", "ENZ.matrix", "PositionConvert.enz.to_itrf", "GroundSite.enz_position"])

p("C09", "Inertial and Earth-fixed frames transform consistently at every epoch",
  "At every epoch from 1900 to 2100 an inertial position is carried through the mean-of-date and true-of-date frames to the Earth-fixed frame by IAU precession, the two-term nutation and apparent sidereal rotation. Going to the Earth-fixed frame and back returns the position, and lengths and mutual angles are preserved, to the 2e-8 relative accuracy of the first-order nutation. The quasi-inertial equatorial frame differs from the Earth-fixed frame by exactly the Greenwich hour angle about the pole.",
  ["inputs"], "all positions from the Earth's surface to lunar distance and all epochs 1900-2100, in any order of calls",
  "One position at one epoch is compared to half a kilometre; the inverse direction and other epochs are untested.",
  ["coordinates/positions.py", "bodies/celestial.py", "time.py"], [("precession, nutation, rotation matrices", "bodies/celestial.py Earth"), ("conversion chains", "coordinates/positions.py PositionConvert.gcrf, PositionConvert.itrf")],
  ["PositionConvert.gcrf.to_itrf / to_tod / to_mod / to_ijk", "PositionConvert.itrf.to_gcrf / to_tod / to_mod / to_ijk", "Earth.precession / nutation / rotation / obliquity_of_ecliptic_at_epoch / geo_radius"])

p("C10", "Sun and Moon positions follow the analytic ephemerides at every epoch",
  "At every epoch the geocentric Sun and Moon positions equal the low-precision analytic series of Montenbruck and Gill (equations 3.43-3.51), so distance, ecliptic longitude and ecliptic latitude stay within their physical ranges and eclipses happen when they really did. Motion is smooth: positions at nearby epochs differ only by the bodies' orbital rates.",
  ["inputs", "histories"], "all epochs 1950-2100 and all sequences of closely spaced epochs",
  "Each body is compared at one date to about 0.5-5 mrad; whole series terms can be wrong without notice (one was, until repaired here).",
  ["bodies/celestial.py"], [("solar series", "bodies/celestial.py Sun.get_position"), ("lunar series", "bodies/celestial.py Moon.get_position")],
  ["Sun.get_position", "Moon.get_position", "sun and moon vectors from a state or spacecraft"])

p("C11", "The force model is the sum of the documented physical accelerations",
  "For every inertial state, the Earth acceleration is the point-mass term plus the gradient of the degree-and-order-4 geopotential; Sun and Moon contribute the third-body difference between direct pull and pull on the Earth; solar radiation pushes directly away from the Sun in proportion to the state's coefficient, which for a spacecraft is (1 + albedo) times cross-section over mass; thrust adds as given. The state derivative is the velocity and the sum of exactly those terms, with all but point-mass gravity and thrust left out when perturbations are switched off.",
  ["inputs", "configurations"], "all positions from low orbit to beyond geosynchronous, all latitudes and longitudes, all epochs, any thrust, radiation coefficient and perturbation setting",
  "Magnitudes of two gravity terms are checked at one equatorial point; direction, third bodies, radiation pressure, thrust, switches and other latitudes are not.",
  ["coordinates/states.py", "math/functions.py", "bodies/celestial.py"], [("spherical-harmonic gradient", "coordinates/states.py GCRF.acceleration_from_gravity"), ("Legendre functions", "math/functions.py LegendrePolynomial"), ("coefficients", "bodies/celestial.py Earth.C, Earth.S"), ("sum", "coordinates/states.py GCRF.derivative")],
  ["GCRF.acceleration_from_*", "GCRF.derivative", "GCRF.sun_vector / moon_vector", "LegendrePolynomial.p"])

p("C12", "Propagation lands on time and integrates the force model to fourth order",
  "Propagating a state to any later or earlier epoch ends at that epoch, in equal classical fourth-order Runge-Kutta steps of at most 300 s of the force model in effect at each intermediate time, leaving the configured single-step size as it was; a single step advances by exactly that size. Going forward and back, or through intermediate epochs, gives the same state to integration accuracy, and with perturbations off the orbit obeys two-body motion (energy and angular momentum constant) and the setting survives every step, copy and maneuver. A target epoch equal to the current one changes nothing.",
  ["inputs", "histories", "configurations"], "all bound orbits, durations from milliseconds to days in both directions, any sequence of single steps and target epochs, step sizes, perturbations on or off",
  "One 19-hour forward GEO propagation is compared to about 5 km.",
  ["propagators/inertial.py", "coordinates/states.py", "bodies/artificial.py"], [("RK4 step", "propagators/inertial.py RK4.step"), ("step splitting", "propagators/inertial.py RK4.step_to_epoch"), ("delegation", "bodies/artificial.py Spacecraft.step, Spacecraft.step_to_epoch")],
  ["RK4.state after step / step_to_epoch", "RK4.step_size", "Spacecraft.current_state"], [("state", "current inertial state", "propagators/inertial.py RK4.state"), ("step_size", "single-step size in seconds", "propagators/inertial.py RK4.step_size")])

p("C13", "Relative motion follows Hill's equations exactly",
  "Advancing a relative state by any positive, negative or zero time gives the exact solution of the Hill-Clohessy-Wiltshire equations for the origin's mean motion, so advancing in pieces, in one go, or there and back agree, and zero time is the identity. The default step advances by the configured step size. For small separations from a circular-orbit origin the result agrees with differencing two-body inertial motion to second order in the separation.",
  ["inputs", "histories"], "all relative states, origin semi-major axes from low orbit to beyond geosynchronous, times from seconds to many periods of either sign, any splitting into steps",
  "There is no test of the relative propagator.",
  ["propagators/relative.py"], [("closed-form transition matrix", "propagators/relative.py Hill.system_matrix"), ("advance", "propagators/relative.py Hill.step_by_seconds, Hill.step")],
  ["Hill.state after step / step_by_seconds", "Hill.system_matrix", "Hill.n"])

p("C14", "Relative and inertial states convert back and forth without loss",
  "For any origin orbit, an inertial state converted to the origin's curvilinear radial / in-track / cross-track frame and back is unchanged, and so is a relative state converted to inertial and back, at separations from metres to thousands of kilometres. The origin itself maps to zero, radial offset is the difference of geocentric distances, in-track and cross-track offsets are arcs scaled by the origin's radius, relative velocity is their rate, and the frame axes are orthonormal along position, in-track and orbit normal. Results carry the origin's epoch.",
  ["inputs"], "all non-rectilinear origin states (circular, eccentric, retrograde, polar) and all relative offsets with in-track arc below half a turn and cross-track arc below a quarter turn",
  "No test converts a relative state.",
  ["coordinates/states.py", "bodies/artificial.py"], [("to relative", "coordinates/states.py StateConvert.gcrf.to_hcw"), ("to inertial", "coordinates/states.py StateConvert.hcw.to_gcrf"), ("axes", "coordinates/states.py HCW.frame_matrix")],
  ["StateConvert.gcrf.to_hcw", "StateConvert.hcw.to_gcrf", "HCW.frame_matrix", "HCW.from_state_vector", "Spacecraft.hill_position"])

p("C15", "Maneuvers deliver the commanded velocity change and account for propellant",
  "An impulsive maneuver changes the velocity by exactly the commanded radial, in-track and cross-track components and leaves epoch, position, mass and propagator settings alone. A finite maneuver thrusts along the commanded direction (frame fixed at ignition) with acceleration growing as mass drops, for the rocket-equation duration, so it delivers the commanded velocity change whatever its length, and ends with thrust off. Propellant falls by exactly flow rate times burn time, total mass is always dry mass plus propellant, and successive burns start from the reduced mass.",
  ["inputs", "histories"], "all burn vectors (zero, single-axis, arbitrary, from mm/s to hundreds of m/s spanning many integration steps), all orbits, masses, flow rates and specific impulses, any sequence of burns and coasts",
  "There is no test of maneuvers of a spacecraft; four defects here survived the test suite until repaired.",
  ["bodies/artificial.py", "propagators/inertial.py", "coordinates/states.py"], [("impulsive burn", "bodies/artificial.py Spacecraft.impulsive_maneuver"), ("finite burn", "bodies/artificial.py Spacecraft.finite_maneuver"), ("thrust history", "propagators/inertial.py RK4.maneuver, RK4.thrust_vector")],
  ["Spacecraft.current_state before/after", "Spacecraft.propellant_mass", "Spacecraft.total_mass"], [("propellant_mass", "propellant ledger in kg", "bodies/artificial.py Spacecraft.propellant_mass")])

p("C16", "Transfer planning satisfies vis-viva and connects the two orbits",
  "For every pair of circular orbit radii, the planned Hohmann transfer starts at circular speed, its first burn puts the opposite apsis exactly at the final radius, its second burn circularises there, and each burn is the signed difference of the speeds around it (positive to climb, negative to descend, zero for equal radii). Circular and elliptic speeds obey the vis-viva law.",
  ["inputs"], "all radius pairs, climbing, descending and equal, with ratios up to 100, and all radii between the apsides of any ellipse",
  "One nearly equal pair of radii, climbing only, is tested.",
  ["planning/maneuvers.py"], [("vis-viva", "planning/maneuvers.py VisViva"), ("planner", "planning/maneuvers.py Hohmann")],
  ["Hohmann attributes", "VisViva.circular_velocity / eccentric_velocity"])

p("C17", "The relative-navigation filter is a consistent Kalman filter",
  "Processing any sequence of observations, the filter's estimate and covariance equal those of a Kalman filter on the Hill dynamics with position-only measurements, the package's default initial covariance and process noise, and measurement noise built from each observation's range and angle errors; its epoch is that of the last observation and its propagator holds the estimate. The covariance stays symmetric and positive, never grows by a measurement, and the estimate converges to the true relative state when tracking a target; acquiring a seed starts the filter from the seed's Hill-frame state at the spacecraft's current epoch, whatever epoch the seed was given at. Filters never affect one another.",
  ["histories", "inputs"], "all sequences of observations (irregular, repeated, simultaneous or out-of-order times), geometries, error levels and initial estimates; several filters in parallel",
  "There is no test of the filter.",
  ["estimation/filtering.py", "bodies/artificial.py"], [("predict/update", "estimation/filtering.py RelativeKalman"), ("acquisition and processing", "bodies/artificial.py Spacecraft.acquire, process_wfov, process_nfov")],
  ["RelativeKalman.x00, p00, epoch, propagator.state after each processed observation"], [("x00", "state estimate", "estimation/filtering.py"), ("p00", "covariance", "estimation/filtering.py")])

p("C18", "Observations encode and return the true geometry",
  "A ground site's look at a spacecraft gives the true range, azimuth clockwise from north in [0, 2*pi] and elevation above the local horizon, and the observation converts back to the spacecraft's inertial position; building an observation from azimuth, elevation and range reproduces those values. A space observation gives range, right ascension and declination of its direction vector and its inertial position is observer plus direction, carried to the equatorial frame of date. Simulated camera observations carry the observer's state, the camera's range error for the target's size, and noise of that sigma about the truth.",
  ["inputs"], "all site locations, target positions (including overhead, below the horizon, due north/south/east/west), epochs, cameras and target sizes",
  "One site and one pass geometry are tested; space observations and inverses of the look angles are not.",
  ["estimation/obs.py", "bodies/terrestrial.py", "bodies/artificial.py", "coordinates/positions.py"], [("ground look", "bodies/terrestrial.py GroundSite.angles_and_range"), ("observation types", "estimation/obs.py GroundObservation, SpaceObservation"), ("simulated cameras", "bodies/artificial.py Spacecraft.observe_wfov, observe_nfov")],
  ["GroundObservation.range/azimuth/elevation/gcrf_position/ijk_position", "SpaceObservation.range/right_ascension/declination/ijk_position", "Spacecraft.observe_wfov / observe_nfov"])

p("C19", "Gauss orbit determination recovers the orbit through two positions",
  "Given two observations of a bound Earth orbit less than half a revolution apart, orbit determination terminates and returns elements at the first observation's epoch whose orbit passes through both observed positions at the observed times, i.e. the orbit that produced them. This holds for circular, eccentric (around perigee and apogee), retrograde and equatorial orbits and for short and long arcs.",
  ["inputs"], "all bound orbits with e <= 0.9, arcs from a fraction of a degree to just under 180 degrees of true anomaly in less than half a period",
  "One textbook pair of observations is tested; eccentric perigee passes raised an error until repaired here.",
  ["estimation/iod.py"], [("sector-triangle ratio by secant iteration", "estimation/iod.py Gauss.solve_nu"), ("elements from ratio", "estimation/iod.py Gauss.coes_from_positions")],
  ["Gauss.coes_from_positions"])

p("C20", "Attitude always matches the steering mode and slews take their time",
  "After every operation on a spacecraft its payload axis points at the Earth, directly away from the Sun, or at the tracked target at the spacecraft's own epoch (bringing the target to that epoch), according to the last commanded mode and target, and its three body axes form a right-handed orthogonal triad whose second axis (the panels) lies along the orbit normal when Earth-pointing and perpendicular to the Sun when tracking. Changing mode starts a slew whose duration is the angle between old and new payload direction at 0.5 degrees per second (or the rate the spacecraft was given); the slewing flag stays up until an update after that time and re-commanding the current mode starts no new slew.",
  ["histories", "inputs"], "all interleavings of mode commands, single steps, target epochs and maneuvers on several spacecraft, including re-targeting and mutual tracking",
  "Attitude, steering and slewing are not tested; re-targeting was ignored and maneuvers left stale axes until repaired here.",
  ["bodies/artificial.py"], [("axes per mode", "bodies/artificial.py Spacecraft.update_attitude"), ("mode commands", "bodies/artificial.py Spacecraft.track_lvlh, track_sun, track_state")],
  ["Spacecraft.body_x / body_y / body_z / steering / slewing / slew_stop / tracked_target"], [("steering", "commanded mode", "bodies/artificial.py"), ("slew_stop", "end of slew", "bodies/artificial.py")])

p("C21", "Detection, photometry and camera limits follow the stated constraints",
  "A target is detected exactly when Sun, Earth and Moon exclusion angles, limiting magnitude and boresight limit of the wide camera are all satisfied. Visual magnitude follows the diffuse-sphere phase law from the target's radius and albedo, range and phase angle: brighter when larger, closer or more fully lit. Camera resolution is proportional to range, range error to range squared over size, the characterisation range is where resolution equals its limit, and the tracking minimum is where the target fills the field of view.",
  ["inputs", "configurations"], "all relative geometries, target sizes and albedos, limits on either side of each threshold, pixel counts and fields of view",
  "Nothing in the sensing path is tested; the magnitude used the observer's size until repaired here.",
  ["bodies/artificial.py", "hardware/payloads.py", "hardware/constraints.py"], [("constraint chain", "bodies/artificial.py Spacecraft.detect"), ("magnitude", "bodies/artificial.py Spacecraft.visual_magnitude"), ("camera", "hardware/payloads.py Camera"), ("limits", "hardware/constraints.py OpticalConstraints")],
  ["Spacecraft.detect / visual_magnitude / sun_angle / moon_angle / earth_angle / range", "Camera.resolution / range_error / tracking_minimum", "OpticalConstraints attributes"])

p("C22", "Queries never modify their operands and copies are independent",
  "No computation or query changes the vectors, matrices, epochs, states, spacecraft or shared constants it reads; only commands that advance, steer, maneuver or filter change state, and then only the object commanded (and a tracked target brought to the same epoch; a filter drives the propagator it is given). Objects keep their own copies of the vectors, epochs and states they are built from, copies equal their originals, and modifying an original, a copy or a returned state, position, velocity or epoch afterwards never affects the other. A spacecraft's record of its initial state never changes.",
  ["histories", "inputs"], "all public operations in any order, with mutation of inputs and outputs between operations",
  "Tests never look at an operand after using it.",
  ["math/linalg.py", "coordinates/states.py", "time.py", "bodies/artificial.py", "estimation/obs.py", "estimation/filtering.py", "propagators/inertial.py", "propagators/relative.py", "coordinates/positions.py", "coordinates/elements.py"],
  [("defensive copies", "math/linalg.py Matrix3D.__init__ and others; coordinates/states.py State.__init__; bodies/artificial.py accessors")],
  ["public attributes of every operand before and after every call", "module and class constants"])

p("C23", "Results depend only on inputs, never on call history or other objects",
  "Every computation gives bit-identical results whenever it is repeated with the same inputs: in a fresh process, after any other calls, in any order, and interleaved with work on other objects. Spacecraft, propagators and filters evolve identically whether alone or alongside others, and simulated noise is reproducible from the random seed.",
  ["histories", "schedules"], "all call orders and interleavings of operations on independent objects, nearby and repeated epochs",
  "Each test makes one isolated call, so state leaking between calls cannot show.",
  ["bodies/celestial.py", "coordinates/positions.py", "coordinates/states.py", "propagators/inertial.py", "propagators/relative.py", "bodies/artificial.py", "estimation/filtering.py", "estimation/iod.py", "time.py", "math/functions.py"],
  [("stateless static functions and per-instance attributes", "all modules")],
  ["return values in fresh, reordered and interleaved executions"])

p("C24", "Every operation succeeds with finite results on its whole domain",
  "For every input in its domain, every operation of the package terminates without raising and returns finite real numbers; the domain is epochs of years 1 to 9999, non-zero directions, invertible matrices, sites from 100 km below the surface, bound Earth orbits up to eccentricity 0.95, and spacecraft at distinct places. Degenerate geometry is included: exactly circular, equatorial, polar and retrograde orbits, exact poles, axes and meridians, parallel and antiparallel vectors, targets exactly along the Earth, Moon, Sun or velocity direction (a fully unlit target alone has no finite magnitude), zero burns, zero time and noise-free sensors. Whatever program of commands a spacecraft has executed, its state, attitude, mass and filter stay finite.",
  ["inputs", "histories"], "every public operation on every valid operand, with the degenerate and extreme ones included, and every program of spacecraft commands",
  "Tests use well-behaved operands; domain errors, divisions by zero and non-termination live exactly at the operands nobody samples (the repository had seven such defects).",
  ["math/linalg.py", "math/functions.py", "coordinates/positions.py", "coordinates/states.py", "coordinates/elements.py", "bodies/artificial.py", "bodies/celestial.py", "bodies/terrestrial.py", "estimation/iod.py", "estimation/filtering.py", "estimation/obs.py", "propagators/inertial.py", "propagators/relative.py", "planning/maneuvers.py", "time.py"],
  [("guards of square roots, inverse trigonometry and divisions", "math/linalg.py Vector3D.angle; math/functions.py Eccentricity, EccentricAnomaly; coordinates/positions.py to_lla; estimation/iod.py Gauss")],
  ["return values, raised exceptions and attributes of every touched object"])

p("C25", "All views of one mission agree with one another",
  "At every moment of every mission (any sequence of coasts, steps, impulsive and finite burns and steering commands) all views the package offers of a spacecraft describe the same motion: its state, position, velocity and epoch queries, its semi-major axis against classical elements, vis-viva speed and energy, its geodetic position, its look from a ground site, its look from another spacecraft and its Hill-frame position relative to one (looks carried to the equatorial frame coincide), and the filter that acquired it. Plans come true: a planned Hohmann transfer flown with impulsive burns and a two-body coast of half the transfer period arrives opposite at the final radius on a circular orbit, a coast of one computed period closes the orbit, elements advanced at the mean motion predict the propagated state, and the rocket equation links propellant used, burn time and velocity change. An orbit determined from two looks at a flown spacecraft is the orbit it flies and predicts later looks, and close formations move alike under Hill's equations and under two-body propagation.",
  ["histories", "inputs"], "all missions of spacecraft and ground sites, with perturbations on or off",
  "Tests exercise one module at a time; whether modules agree on frame, epoch, unit, sign and origin shows only when one mission is seen through several of them.",
  ["bodies/artificial.py", "bodies/terrestrial.py", "coordinates/states.py", "coordinates/elements.py", "coordinates/positions.py", "estimation/obs.py", "estimation/iod.py", "estimation/filtering.py", "planning/maneuvers.py", "propagators/inertial.py", "propagators/relative.py", "math/functions.py"],
  [("Spacecraft queries", "bodies/artificial.py Spacecraft.sma, hill_position, target_vector, range, position, velocity"), ("looks", "bodies/terrestrial.py angles_and_range; estimation/obs.py ijk_position, gcrf_position")],
  ["return values of all queries of one mission after every event"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        assert x["statement"].count(". ") <= 2, (x["id"], x["statement"].count(". "))
        f.write(json.dumps(x) + "\n")
print(len(P))
