"""Writes /verif/properties.jsonl (the property texts live here so that they are easy to edit)."""
import json, os
K = "src/exoplanet/orbits/keplerian.py"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))


CFG = ["inputs", "configurations"]
prop("C01", "Orbit and stellar parameters are mutually consistent",
     "For every accepted combination of period, a, m_star, r_star, rho_star and m_planet, the orbit exposes values that echo the inputs and satisfy Kepler's third law with the total mass (G (m_star+m_planet) P^2 = 4 pi^2 a^3) and rho_star = m_star / (4/3 pi r_star^3), with rho_star in g/cm^3 and the other attributes in R_sun, M_sun and days; omitted stellar parameters default to the sun (r_star=1 and, unless rho_star or a+period fix it, m_star=1). Under- or over-determined combinations raise ValueError.",
     CFG, "all positive values of the parameters, one or two planets, and all 2^5 presence patterns of (period, a, m_star, r_star, rho_star), scalar and vector",
     "test_get_consistent_inputs round-trips one numeric system through five combinations; a wrong exponent, a dropped m_planet or a missed combination for other masses is not sampled.",
     [K, "src/exoplanet/orbits/constants.py"],
     [("_get_consistent_inputs", K), ("G_grav, gcc_per_sun", "src/exoplanet/orbits/constants.py")],
     ["KeplerianOrbit(...).a/.period/.rho_star/.r_star/.m_star/.m_planet/.m_total"])
prop("C02", "At t0 the planet transits at impact parameter b, in front of the star",
     "For any eccentricity 0<=ecc<1, any omega (or sin_omega/cos_omega pair), Omega and orientation with sin(incl)>0, at the reference transit time t0 the planet is at inferior conjunction: in front of the star (z>0), displaced only along the direction perpendicular to the line of nodes, at a projected distance of |b| r_star. The b and incl parametrisations are inverse to each other (b = (a/r_star) cos(incl) (1-ecc^2)/(1+ecc sin omega)), t0 and t_periastron are consistent with each other, and contradictory input (b with incl, t0 with t_periastron, ecc without omega) raises ValueError.",
     CFG, "all ecc in [0,1), all omega including the singular directions, all impact parameters, semi-major axes, masses, circular and eccentric, b or incl, t0 or t_periastron, with and without Omega",
     "test_impact checks one orbit (ecc 0.8, omega 0.1); batman comparison samples a small grid of omega that avoids the singular direction.",
     [K], [("E0/M0 and t0/t_periastron conversion", K), ("incl_factor, dcosidb", K)],
     ["KeplerianOrbit.get_relative_position", ".incl", ".b", ".t_periastron", ".t0"])
prop("C03", "Positions are the exact Kepler solution and repeat every period",
     "At any time the relative planet position equals the textbook Keplerian orbit: with eccentric anomaly E solving E - ecc sin E = 2 pi (t - t_periastron)/period, the separation is a (1 - ecc cos E) along true anomaly f, rotated by omega in the orbital plane, by the inclination about the line of nodes, and by Omega on the sky, with +z towards the observer. Positions, velocities and radial velocities at t + k period equal those at t for every integer k.",
     CFG, "all eccentric anomalies (hence all times), ecc in [0,1), omega, Omega, incl, a, period; circular and eccentric; several planets; several integers k",
     "test_sky_coords compares in-transit samples on a coarse grid against batman, only projected distance, only without Omega.",
     [K], [("_get_true_anomaly", K), ("_rotate_vector", K), ("_get_position", K)],
     ["KeplerianOrbit.get_relative_position/get_planet_position/get_star_position", "get_true_anomaly"])
prop("C04", "Velocities are the exact time derivatives of positions",
     "For star, planet and relative motion, the velocity returned at any time is the exact time derivative of the corresponding position (in R_sun/day), for circular and eccentric orbits, any orientation and any masses, including massless planets.",
     CFG, "all times, ecc in [0,1), orientations, masses >= 0, period, one or two planets, with and without ecc and Omega",
     "test_velocity compares with autodiff for a single eccentric orbit; circular orbits and other parameters are not covered.",
     [K], [("_get_velocity, K0", K)], ["get_star_velocity", "get_planet_velocity", "get_relative_velocity"])
prop("C05", "Accelerations are velocity derivatives and obey Newtonian gravity",
     "For star, planet and relative motion, the acceleration returned at any time is finite and is the exact time derivative of the corresponding velocity; equivalently the relative acceleration is -G (m_star+m_planet) r/|r|^3, for circular and eccentric orbits and any masses including massless planets.",
     CFG, "all times, ecc in [0,1), orientations, masses >= 0 (m_planet = 0 is the default), one or two planets, circular and eccentric",
     "test_acceleration checks a single eccentric orbit with m_planet=0.1.",
     [K], [("_get_acceleration", K)], ["get_star_acceleration", "get_planet_acceleration", "get_relative_acceleration"])
prop("C06", "Star and planet move about a fixed barycentre",
     "For each planet, m_star * (star state) + m_planet * (planet state) = 0 and relative state = planet state - star state, for positions, velocities and accelerations at every time; the relative quantities do not depend on how the total mass is split between star and planet.",
     CFG, "all times, ecc, orientations, masses, circular and eccentric, one or two planets, with and without parallax",
     "test_center_of_mass checks positions only, for one two-planet system.",
     [K], [("a_star, a_planet, K0, m_total", K)], ["get_star_*, get_planet_*, get_relative_*"])
prop("C07", "Radial velocity: sign, units and amplitude conventions hold everywhere",
     "get_radial_velocity returns minus the line-of-sight velocity of the star (positive = redshift) converted to the requested velocity unit (m/s by default); when K is given it returns exactly K (cos(omega+f) + ecc cos omega) independently of masses and inclination, and the two agree when K is the physical semi-amplitude 2 pi a_star sin(incl) / (period sqrt(1-ecc^2)).",
     CFG, "all times, ecc, omega, incl, masses, K, several output units, circular and eccentric, one or two planets",
     "test_radial_velocity compares the two forms at one parameter set; the default unit and the circular branch are not checked.",
     [K], [("get_radial_velocity", K)], ["KeplerianOrbit.get_radial_velocity"])
prop("C08", "A circular orbit equals an eccentric orbit with zero eccentricity",
     "Omitting ecc/omega gives the same orbit as ecc=0 with any omega: identical positions, velocities, accelerations, radial velocities, impact parameter and inclination at every time.",
     CFG, "all omega, times, orientations, masses, b or incl",
     "Only in_transit indices are compared (omega=0); the circular fast path is otherwise tested separately from the eccentric one.",
     [K], [("ecc is None branches", K)], ["KeplerianOrbit getters"])
prop("C09", "Swapping primary and secondary gives the same motion",
     "The flipped orbit used for secondary eclipses describes the same binary with the roles exchanged: its planet positions and velocities equal the original star's and vice versa at every time, its period, inclination and masses are exchanged consistently, its star radius is the planet radius, and it is in front exactly when the original is behind.",
     CFG, "all times, ecc, omega, Omega, incl, masses, circular and eccentric",
     "test_flip and test_flip_circular check positions only, for one orbit each.",
     [K], [("_flip", K)], ["KeplerianOrbit._flip(...).get_*"])
prop("C10", "in_transit returns exactly the exposures that overlap a transit",
     "For a Keplerian orbit, an index is returned exactly when, for at least one planet, the exposure centred at that time (of length texp, scalar or one value per time; zero if not given) overlaps the interval in which the planet is in front of the star and its projected distance is at most r_star + r; if the contact points of an eccentric orbit cannot be found, every index is returned.",
     CFG, "all times and epochs, periods, b, r, r_star, a, texp, scalar and per-time texp, circular and eccentric (for eccentric orbits each half of the transit plus texp/2 is shorter than half a period), one or two planets",
     "test_in_transit samples one two-planet system without texp; test_in_transit_circ one comparison; per-time texp is never exercised.",
     [K], [("in_transit", K)], ["KeplerianOrbit.in_transit"])
prop("C11", "Light travel delay solves the second-order retarded-time equation",
     "With light_delay=True a position is the undelayed position evaluated at an emission time t - d, where d solves c d = -(z - v_z d + a_z d^2/2) with the body's true line-of-sight position, velocity and acceleration at t (first-order form when the acceleration is negligible); the shape of the result, units and parallax scaling are the same as without delay, and a body at z=0 has no delay. Orbit types that do not implement the delay raise NotImplementedError.",
     CFG, "all times, ecc, orientations, masses, period; scalar, 1-D time inputs; one and two planets; star, planet and relative positions; with and without parallax; TTV orbits; line-of-sight speeds up to c/4",
     "test_light_delay compares 100 random orbits with a tolerance that hides the second-order term; parallax and TTV combinations are never exercised.",
     [K, "src/exoplanet/orbits/ttv.py", "src/exoplanet/orbits/simple.py"], [("_get_retarded_position", K), ("_warp_times(_pad=False)", "src/exoplanet/orbits/ttv.py")],
     ["get_*_position(light_delay=True)", "get_relative_angles(light_delay=True)"])
prop("C12", "Astrometric scaling and relative angles are consistent with positions",
     "Giving a parallax multiplies every position component by parallax (arcsec) times the au per R_sun, and the relative angles are the polar coordinates of that sky position (the delayed one with light_delay=True): rho >= 0, rho cos(theta) = x (north) and rho sin(theta) = y (east), with theta in [-pi, pi].",
     CFG, "all times, parallaxes > 0, ecc, orientations, circular and eccentric, one or two planets",
     "No test evaluates get_relative_angles or a parallax argument against positions.",
     [K, "src/exoplanet/orbits/constants.py"], [("_get_position parallax", K), ("get_relative_angles", K), ("au_per_R_sun", "src/exoplanet/orbits/constants.py")],
     ["get_relative_angles", "get_*_position(parallax=...)"])
prop("C13", "Planets in a multi-planet orbit are independent of each other",
     "For a Keplerian or TTV orbit with several planets, the column of every result (positions, velocities, accelerations, radial velocities, derived parameters, light curve) belonging to one planet equals the result of a single-planet orbit with that planet's parameters, evaluated at the same time; results at one time do not depend on the other times requested (a vector or an array of any shape), and integer-valued input gives the same result as float input.",
     CFG, "all parameter values for two planets and two times, circular and eccentric, scalar or vector star parameters",
     "Tests use vector parameters but never compare with single-planet evaluation.",
     [K, "src/exoplanet/orbits/ttv.py", "src/exoplanet/utils.py"], [("broadcasting via shape_padright", K), ("as_tensor_variable", "src/exoplanet/utils.py")], ["all KeplerianOrbit getters"])
prop("C14", "Duration parametrisation produces the requested transit duration",
     "A circular orbit built from duration, period, b and ror reaches the projected separation r_star (1+ror) exactly at t0 +- duration/2 (and at the same phase of every other transit), has impact parameter b, and get_aor_from_transit_duration returns that a/r_star; with ecc given, duration determines b such that building the orbit back from that b gives the same duration-impact parameter relation b^2 = ((1-e^2)/(1+e sin omega))^2 (1 - (a/r_star)^2 s^2) / (((1-e^2)/(1+e sin omega))^2 - s^2), s being the sine of half the orbital phase spanned by the transit. A circular orbit with duration but no b raises ValueError.",
     CFG, "all periods, durations below half a period, b, ror, r_star; eccentric orbits with all ecc, omega, masses",
     "test_get_aor_from_transit_duration uses one numeric system; the eccentric branch is not tested at all.",
     [K], [("get_aor_from_transit_duration", K), ("duration branches of KeplerianOrbit.__init__", K)], ["KeplerianOrbit(duration=...)", "get_aor_from_transit_duration"])
prop("C15", "Reported Jacobians equal the derivatives they name",
     "jacobians['b']['cos_incl'], jacobians['duration'][a, a_star, a_planet, rho_star], the second result of get_aor_from_transit_duration and of get_ror_from_approx_transit_depth(jac=True) equal the exact partial derivatives of the named quantities with respect to the named inputs, for all parameter values including massive planets.",
     CFG, "all periods, durations, b, ror, radii, planet masses >= 0, limb-darkening coefficients, depths",
     "test_jacobians uses one system with a massless planet, for which two of the Jacobians are trivially right.",
     [K, "src/exoplanet/light_curves/limb_dark.py"], [("jacobians", K), ("get_aor_from_transit_duration", K)], ["KeplerianOrbit.jacobians"])
prop("C16", "Unit-labelled inputs are equivalent to converted plain numbers",
     "to_unit(with_unit(x, u1), u2) equals x times the conversion factor from u1 to u2 and leaves unlabelled values unchanged; labelling twice raises TypeError. Giving any unit-aware orbit parameter (period, a, r_star, m_star, m_planet, rho_star, duration) with a unit, or using the deprecated m_planet_units / rho_star_units, yields the same orbit as giving the value converted by hand to R_sun, M_sun, days and g/cm^3.",
     CFG, "all values, several units per parameter, every accepted constructor combination including duration-parametrised circular orbits",
     "test_mass_units checks one planet mass unit and test_get_consistent_inputs rho_star in its default unit.",
     ["src/exoplanet/units.py", K], [("with_unit, to_unit", "src/exoplanet/units.py"), ("to_unit calls in _get_consistent_inputs", K)], ["KeplerianOrbit(... with_unit ...)"])
prop("C17", "Simple transit orbits occult exactly during the stated duration",
     "For SimpleTransitOrbit the planet is in front of the star (z>0) exactly when t is within duration/2 of t0 + k period for some integer k, moves at constant speed along a chord at y = b r_star, and is at projected distance r_star (1+ror) from the star centre at t0 +- duration/2; in_transit returns exactly the indices whose time is within half the crossing time of radius r_star + r (half the duration if r is not given), extended by texp/2 (scalar or per time), of a transit centre of at least one planet. The star is at the origin and velocities raise NotImplementedError.",
     CFG, "all times, periods, t0, durations, b, r_star, ror, r, texp, one or two planets",
     "test_simple samples one orbit with ror=0 and no texp.",
     ["src/exoplanet/orbits/simple.py"], [("get_relative_position", "src/exoplanet/orbits/simple.py"), ("in_transit", "src/exoplanet/orbits/simple.py")], ["SimpleTransitOrbit"])
prop("C18", "TTV orbits transit exactly at the labelled transit times",
     "Around every labelled transit of every planet, the TTV orbit's state at transit time + delta equals the state of the plain Keplerian orbit (same parameters) at t0 + delta, for all delta up to half the gap to the neighbouring transits (half a period outside the first and last); every timestamp is assigned to its nearest labelled transit. With all TTVs zero the orbit equals the plain Keplerian orbit inside the labelled span.",
     ["inputs", "configurations"], "all transit times (increasing), offsets, periods, 2-4 transits, one or two planets with different numbers of transits, contiguous transit numbers or gaps, circular or eccentric",
     "test_no_ttvs and test_consistency use two regular ephemerides; large TTVs, gaps in transit_inds and bin edges are not sampled.",
     ["src/exoplanet/orbits/ttv.py"], [("_get_model_dt, _bin_edges, _bin_values", "src/exoplanet/orbits/ttv.py"), ("_warp_times", "src/exoplanet/orbits/ttv.py")], ["TTVOrbit.get_relative_position", "TTVOrbit.in_transit"])
prop("C19", "TTV ephemeris, offsets and transit times stay mutually consistent",
     "transit_times[k] = t0 + ttv_period * transit_inds[k] + ttvs[k] in both input modes; when transit_times are given, t0 and ttv_period are the least-squares line through them (residuals sum to zero and are uncorrelated with the transit number), period defaults to ttv_period (times exp(delta_log_period) if given), and unobserved transit numbers get the linear-ephemeris time t0 + ttv_period * n. Rebuilding from the derived ttvs reproduces the transit times, and giving neither input raises ValueError.",
     CFG, "all transit times/ttvs, 2-4 transits, contiguous or gapped integer transit numbers, explicit period or delta_log_period or neither, one or two planets",
     "test_consistency uses one noise realisation with contiguous indices and no explicit period.",
     ["src/exoplanet/orbits/ttv.py"], [("least squares in TTVOrbit.__init__", "src/exoplanet/orbits/ttv.py"), ("all_transit_times", "src/exoplanet/orbits/ttv.py")], ["TTVOrbit.transit_times/.ttvs/.ttv_period/.all_transit_times"])
prop("C20", "Expected transit times are exactly the ephemeris inside the window",
     "compute_expected_transit_times returns, for each planet and in increasing order, exactly the times t0 + k period (k integer) with min_time <= time <= max_time, both ends included.",
     ["inputs"], "all real min_time, max_time, t0 and positive periods with at most a bounded number of transits in the window, windows before, after and around t0, windows shorter than a period, times exactly on the window edges",
     "test_compute_expected_transit_times checks one window and only the first and last time returned.",
     ["src/exoplanet/orbits/ttv.py"], [("compute_expected_transit_times", "src/exoplanet/orbits/ttv.py")], ["compute_expected_transit_times"])
prop("C21", "Light curves are normalised and zero whenever nothing is occulted",
     "LimbDarkLightCurve returns relative flux (zero = unocculted) with one column per planet: exactly zero when a planet does not overlap the stellar disc or is behind the star (line-of-sight coordinate <= 0), otherwise the quadratic-limb-darkened flux deficit evaluated at projected separation / r_star and radius / r_star, normalised by the disc-integrated flux of I(mu) = 1 - u1 (1-mu) - u2 (1-mu)^2. With light_delay=True the positions are the delayed ones and the evaluation is not restricted to undelayed transits. Times may form an array of any shape. A two-element coefficient vector is equivalent to u1, u2, and missing orbit, r or t raises ValueError.",
     CFG, "all limb-darkening coefficients with positive total flux, all positions, radii, stellar radii, one or two planets, scalar or vector radii, 1-3 times, arbitrary orbit objects",
     "test_small_star and test_vector_params sample a single star; the normalisation is only checked against batman at one (u1, u2).",
     ["src/exoplanet/light_curves/limb_dark.py"], [("get_cl", "src/exoplanet/light_curves/limb_dark.py"), ("_compute_light_curve", "src/exoplanet/light_curves/limb_dark.py"), ("get_light_curve", "src/exoplanet/light_curves/limb_dark.py")], ["LimbDarkLightCurve.get_light_curve"])
prop("C22", "Exposure-time integration is a normalised quadrature of the stated order",
     "With texp, the model value is a weighted average of instantaneous values at times symmetric about the time stamp, inside the exposure [t - texp/2, t + texp/2], with non-negative weights summing to one; it integrates constants and linear trends exactly for the midpoint (order 0) and trapezoid (order 1) rules and cubics exactly for Simpson's rule (order 2), equals the composite rule of that name with the requested number of samples (made odd), and scalar texp equals a vector of equal texp. Other orders raise ValueError.",
     CFG, "all times, texp (scalar or per time), oversample 1..9 for order 0 and 3..9 for orders 1 and 2, arbitrary instantaneous light curve values, one or two planets",
     "test_variable_texp only compares scalar with vector texp at order 0; no test uses order 1 or 2.",
     ["src/exoplanet/light_curves/limb_dark.py"], [("stencil and dt in get_light_curve", "src/exoplanet/light_curves/limb_dark.py")], ["LimbDarkLightCurve.get_light_curve(texp=..., oversample=..., order=...)"])
prop("C23", "Restricting evaluation to in-transit times never changes the light curve",
     "get_light_curve gives the same values with use_in_transit=True (the default) as with use_in_transit=False, for every orbit type that implements in_transit, with and without exposure integration, scalar or per-time texp, and any number of planets.",
     CFG, "all times, texp, orbital parameters and radii; circular and eccentric Keplerian, simple and TTV orbits; one or two planets; all quadrature orders",
     "test_in_transit compares one system with scalar texp; per-time texp with use_in_transit is never evaluated.",
     ["src/exoplanet/light_curves/limb_dark.py", K], [("use_in_transit in get_light_curve", "src/exoplanet/light_curves/limb_dark.py"), ("in_transit", K)], ["LimbDarkLightCurve.get_light_curve"])
prop("C24", "Approximate transit depth and radius ratio are inverse to each other",
     "get_ror_from_approx_transit_depth returns the non-negative ror with ror^2 * I(mu(b)) / <I> = delta, where I(mu) = 1 - u1 (1-mu) - u2 (1-mu)^2, mu = sqrt(1-b^2) and <I> = 1 - u1/3 - u2/6; the result has the broadcast shape of delta and b, and grows with delta.",
     CFG, "all |b|<1, depths, limb-darkening coefficients with positive intensity, scalar/vector combinations of delta and b",
     "test_approx_transit_depth evaluates one (u1,u2) and three shapes in which b and delta agree.",
     ["src/exoplanet/light_curves/limb_dark.py"], [("get_ror_from_approx_transit_depth", "src/exoplanet/light_curves/limb_dark.py")], ["LimbDarkLightCurve.get_ror_from_approx_transit_depth"])
prop("C25", "Secondary eclipse light curve is the flux-weighted sum of both bodies",
     "The secondary eclipse model equals (lc1 + F lc2) / (1 + F), F = surface brightness ratio times (r/r_star)^2, where lc1 is the primary's light curve occulted by the secondary and lc2 is the secondary's (its own limb darkening, radius r) occulted by the primary on the exchanged orbit; it is zero when neither eclipse is happening and equals -F/(1+F) when the secondary is completely hidden.",
     CFG, "all times, brightness ratios >= 0, radii, limb-darkening pairs, circular and eccentric single-planet orbits, with and without texp and use_in_transit",
     "test_secondary_eclipse compares one circular binary with a hand-built pair of orbits.",
     ["src/exoplanet/light_curves/secondary_eclipse.py", K], [("get_light_curve", "src/exoplanet/light_curves/secondary_eclipse.py"), ("_flip", K)], ["SecondaryEclipseLightCurve.get_light_curve"])
prop("C26", "Interpolated light curves reproduce the base model at and between nodes",
     "InterpolatedLightCurve folds times on the orbital period and interpolates the base light curve on a uniform phase grid over one period: it equals the base model at every grid node, reproduces any locally cubic base model exactly everywhere, depends on time only modulo the period, and column n uses planet n's ephemeris and base-model column.",
     CFG, "all times, t0, periods, base-model values (arbitrary function on the grid, arbitrary cubic), num_phase in a small range, one or two planets",
     "No test covers this class at all.",
     ["src/exoplanet/light_curves/interpolated.py"], [("interp", "src/exoplanet/light_curves/interpolated.py"), ("InterpolatedLightCurve.get_light_curve", "src/exoplanet/light_curves/interpolated.py")], ["InterpolatedLightCurve.get_light_curve"])
prop("C27", "Regular-grid interpolation is multilinear, exact at nodes and bounded",
     "For coordinates inside the closed grid hull the interpolator returns the multilinear interpolant of the surrounding cell (exact at grid nodes, inside the range of the corner values, each output channel independent), and outside the hull it extrapolates linearly, or returns fill_value exactly when fill_value is given; points on the boundary of the grid count as inside.",
     CFG, "all increasing grids (2-4 nodes per axis), all values, all coordinates including nodes and edges, 1-3 dimensions, with and without extra output axes, with and without fill_value",
     "test_basic and test_fill_value evaluate two points each on one 3-D grid, none on a node or an edge.",
     ["src/exoplanet/interp.py"], [("regular_grid_interp", "src/exoplanet/interp.py")], ["RegularGridInterpolator.evaluate", "regular_grid_interp"])
prop("C28", "unit_disk yields points in the open unit disc with a uniform density",
     "Whatever the sampled values, the two parameters satisfy x^2 + y^2 < 1, the implied joint density of (x, y) is uniform on the disc, and the starting point of the model is the requested initval, for any shape.",
     CFG, "all interior points of the sampling space, all admissible initvals, scalar and vector shapes",
     "TestUnitDisk samples with a statistical tolerance from one start; initval is only used for shapes, not for values.",
     ["src/exoplanet/distributions/distributions.py"], [("unit_disk", "src/exoplanet/distributions/distributions.py")], ["unit_disk"])
prop("C29", "angle is bounded, rotation-invariant and starts at its initval",
     "The angle is always in [-pi, pi], equals the polar angle of the two sampled coordinates, its density is invariant under rotation of the angle (uniform prior, with or without regularization), the regularization only reweights the radial direction by radius^(2*regularization), and the starting point equals the requested initval modulo 2 pi, for any shape.",
     CFG, "all sampled coordinates except the origin, all rotations, all initvals, regularization values and None, scalar and vector shapes",
     "TestAngle samples one model and checks shapes; initval values other than zero are never used.",
     ["src/exoplanet/distributions/distributions.py"], [("angle", "src/exoplanet/distributions/distributions.py")], ["angle"])
prop("C30", "quad_limb_dark only yields physical coefficients, uniformly distributed",
     "Whatever the sampled values, u1 and u2 satisfy u1 + u2 < 1, u1 > 0 and u1 + 2 u2 > 0, every such pair is reachable, the implied joint density is uniform over that triangle, and the starting point of the model is the requested initval.",
     CFG, "all interior points of the sampling space, all physical initvals, with and without a shape",
     "test_quad_limb_dark samples once with a statistical tolerance; initval is never passed.",
     ["src/exoplanet/distributions/distributions.py"], [("quad_limb_dark", "src/exoplanet/distributions/distributions.py")], ["quad_limb_dark"])
prop("C31", "impact_parameter is uniform between 0 and 1 + ror",
     "Whatever the sampled values, 0 < b < 1 + ror, the conditional density of b given ror is uniform on that interval, the shape follows ror unless given, and the starting point of the model is the requested initval (0.5 by default).",
     CFG, "all ror >= 0, all interior points, all admissible initvals, scalar and vector shapes",
     "test_impact samples once; the distribution of b itself and initval are never checked.",
     ["src/exoplanet/distributions/distributions.py"], [("impact_parameter", "src/exoplanet/distributions/distributions.py")], ["impact_parameter"])
prop("C32", "kipping13 has the documented beta density on the requested interval",
     "The eccentricity prior has log-density proportional to (alpha-1) log e + (beta-1) log(1-e) with the published (alpha, beta) for the selected sample (1.12, 3.09 in general and for long periods; 0.697, 3.27 for short), is -inf outside (lower, upper), and is the same up to normalisation whether the eccentricity is sampled or passed as observed; with fixed=False the hyperparameters have positive-truncated normal priors centred on those values. The starting point lies inside the bounds and equals initval when given.",
     CFG, "all eccentricities, all bounds 0<=lower<upper<=1 given singly or together, long in {None, True, False}, fixed or free, observed or sampled",
     "Tests use Kolmogorov-Smirnov statistics with a loose threshold on a handful of option combinations.",
     ["src/exoplanet/distributions/eccentricity.py"], [("kipping13", "src/exoplanet/distributions/eccentricity.py"), ("_truncate", "src/exoplanet/distributions/eccentricity.py")], ["kipping13"])
prop("C33", "vaneylen19 has the documented mixture density on the requested interval",
     "The eccentricity prior has density proportional to (1-f) HalfNormal(e; 0.049) + f Rayleigh(e; 0.26) with f = 0.76 for single and 0.08 for multi systems on (lower, upper), -inf outside, the same whether the eccentricity is sampled or passed as observed; with fixed=False the hyperparameters have truncated normal priors (positive, and the mixture fraction in [0,1]) centred on those values.",
     CFG, "all eccentricities, all bounds, multi or single, fixed or free, observed or sampled",
     "Tests use Kolmogorov-Smirnov statistics with a loose threshold on a handful of option combinations.",
     ["src/exoplanet/distributions/eccentricity.py"], [("vaneylen19", "src/exoplanet/distributions/eccentricity.py")], ["vaneylen19"])
prop("C34", "Semi-amplitude estimates are the exact weighted least-squares solution",
     "estimate_semi_amplitude recovers exactly the semi-amplitudes of a noise-free sum of sinusoids plus constant offset at the given periods (with t0s: the signed amplitudes of -sin(2 pi (x-t0)/P), the redshift convention of the orbit's radial velocity), and for arbitrary data it is the weighted least-squares solution with weights 1/yerr^2 (equal weights if yerr is omitted); inputs may be plain numbers or AstroPy quantities in any compatible unit, with the same result in m/s.",
     CFG, "all amplitudes, phases, offsets, positive weights and data values; 3-6 samples (at arbitrary times for one planet, at times of a grid for two); one or two planets; with and without t0s, yerr and units",
     "test_estimate_semi_amplitude uses one planet, one dataset and equal weights; quantities are never passed.",
     ["src/exoplanet/estimators.py"], [("_get_design_matrix", "src/exoplanet/estimators.py"), ("estimate_semi_amplitude", "src/exoplanet/estimators.py")], ["estimate_semi_amplitude"])
prop("C35", "Minimum-mass estimates follow from the semi-amplitude with the stated scaling",
     "estimate_minimum_mass equals K / (28.4329 m/s) * (m_star/M_sun)^(2/3) * (P/year)^(1/3) Jupiter masses for the semi-amplitudes K of the same data, forwarding yerr and t0s, for any planet count and any compatible units.",
     CFG, "all semi-amplitudes, periods, stellar masses, one or two planets, with and without yerr, t0s and units",
     "test_estimate_minimum_mass uses m_star=1 and a 1% tolerance for one period.",
     ["src/exoplanet/estimators.py"], [("estimate_minimum_mass", "src/exoplanet/estimators.py")], ["estimate_minimum_mass"])
prop("C36", "Periodogram peaks are true local maxima, strongest first",
     "find_peaks returns at most max_peaks (one if max_peaks is 0) strict local maxima of the power, highest first and none skipped; each index points at that maximum, and log_power, period and period_uncert describe the Gaussian (parabola in log power) through the maximum and its two neighbours. With max_peaks=0 a single dictionary is returned and ValueError is raised if there is no local maximum.",
     ["inputs", "configurations"], "all positive power arrays of length 3-7 (all orderings, ties included), all increasing frequency grids, max_peaks 0-3",
     "No test calls find_peaks directly; estimators are only checked for a period within 1%.",
     ["src/exoplanet/estimators.py"], [("find_peaks", "src/exoplanet/estimators.py")], ["find_peaks"])
prop("C37", "Period searches honour their limits and report the peak they found",
     "lomb_scargle_estimator searches frequencies 1/max_period to 1/min_period, returns the unfiltered power spectrum (psd divided by the number of samples) and peaks of the optionally high-pass-filtered one; bls_estimator passes min_period, max_period (overridden by minimum_period, maximum_period) and all extra options to the box search, doubles the frequency_factor from 1 until the grid has no more periods than samples unless one is given, reports transit times in the original time system, and its peak_info holds the periodogram entries at the reported peak (None if there is none).",
     CFG, "all data values and reference times, all periodogram values returned by the underlying search, presence or absence of each option",
     "Each estimator has one test on one dataset that checks the first period to 1% or 0.1%.",
     ["src/exoplanet/estimators.py"], [("lomb_scargle_estimator", "src/exoplanet/estimators.py"), ("bls_estimator", "src/exoplanet/estimators.py")], ["lomb_scargle_estimator", "bls_estimator"])
prop("C38", "Autocorrelation periods are admissible local maxima",
     "The period reported by autocorr_estimator is the lag of a strict local maximum of the returned autocorrelation function, is at least min_period and at most max_period, is the first maximum not below min_period or the second if that one is higher, and no period is reported when none qualifies. The series is interpolated to steps of the smallest time difference over oversample, its autocorrelation function is the mean-subtracted one without wrap-around and 1 at zero lag, smoothed by smooth times min_period; next_pow_two is the smallest power of two not below its argument.",
     ["inputs", "configurations"], "all autocorrelation sequences up to a small length, all min_period/max_period, all series lengths up to a bound",
     "test_autocorr_estimator checks one sinusoid.",
     ["src/exoplanet/estimators.py"], [("autocorr_estimator", "src/exoplanet/estimators.py"), ("next_pow_two", "src/exoplanet/estimators.py"), ("autocorr_function", "src/exoplanet/estimators.py")], ["autocorr_estimator"])
prop("C39", "Citations cover exactly the components used in a model",
     "Every component created in a model context registers its citation with that model only, repeated registration changes nothing, and the acknowledgement text and BibTeX contain exactly the entries of exoplanet, its backend and the registered components, each BibTeX key cited being defined; outside a model nothing is registered and nothing fails.",
     ["inputs", "histories"], "all subsets and orders of components registered in a model",
     "test_basic registers one component.",
     ["src/exoplanet/citations.py"], [("add_citations_to_model", "src/exoplanet/citations.py"), ("get_citations_for_model", "src/exoplanet/citations.py")], ["get_citations_for_model"])
prop("C40", "Compiled kernels solve their equations to machine precision",
     "The Kepler solver, contact-point finder and limb-darkening solution vector return values accurate to near machine precision for every admissible input.",
     ["inputs"], "all mean anomalies, eccentricities, impact parameters and radius ratios in double precision",
     "Only indirect comparisons at sampled parameters.",
     ["src/exoplanet/compat.py"], [("ops imported from exoplanet_core", "src/exoplanet/compat.py")], ["get_true_anomaly"])
prop("C41", "Posterior sampling with the provided priors converges to the prior",
     "Sampling any of the provided distributions with the default sampler converges to the documented distribution, for any random seed.",
     ["inputs", "histories"], "all seeds and chain lengths",
     "Tests use fixed seeds and a loose Kolmogorov-Smirnov threshold.",
     ["src/exoplanet/distributions/distributions.py", "src/exoplanet/distributions/eccentricity.py"], [("pm.sample on the distributions", "src/exoplanet/distributions/distributions.py")], ["pm.sample"])
prop("C42", "Duration-to-eccentricity marginalisation is exact",
     "duration_to_eccentricity computes the exact marginal likelihood over both eccentricity branches compatible with a transit duration.",
     ["inputs"], "all durations, radius ratios and orbital parameters",
     "No test; the module is documented as experimental and not working.",
     ["src/exoplanet/orbits/dur_to_ecc.py"], [("duration_to_eccentricity", "src/exoplanet/orbits/dur_to_ecc.py")], ["duration_to_eccentricity"])
prop("C43", "Results are insensitive to floating-point rounding",
     "In IEEE double precision every orbit and light-curve quantity is within a few ulps times its condition number of the exact real-arithmetic value.",
     ["inputs"], "all double-precision inputs",
     "Tests use relative tolerances at sampled points.",
     [K, "src/exoplanet/light_curves/limb_dark.py"], [("all arithmetic", K)], ["all getters"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
