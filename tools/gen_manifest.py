"""Writes MANIFEST.json (one row per property: technique and what the level means)."""
import json, os
T = {
"C01": ("runtime monitor: exhaustive calendar sweep of the real code against an independent day count, ordering and shift monitors", "Every day of years 1-9999 is executed; times of day and shifts are sampled."),
"C02": ("runtime monitor: reference sidereal time and rate/continuity checker over epoch pairs", "Sampled epochs with all UTC-midnight neighbourhoods; independent IAU formula as second opinion."),
"C03": ("runtime monitor: every linear-algebra call checked against exact rational arithmetic and error-bounded float oracle", "Integer operands are decided exactly; real operands within rounding bounds."),
"C04": ("runtime monitor: geometric invariants, Rodrigues oracle and statistical monitor of recorded noise draws", "Noise distribution judged by fixed-seed statistics at 6.5 sigma."),
"C05": ("runtime monitor: cross-consistency of all conic helpers on one recorded ellipse", "Sampled ellipses incl. degenerate ones."),
"C06": ("runtime monitor: residual checker on solved anomalies with loop-budget sanitizer for non-termination", "Dense grid plus random anomalies and eccentricities up to 0.99."),
"C07": ("runtime monitor: round-trip and physical-meaning monitors on element conversions", "Conditioning of circular/equatorial elements is allowed for."),
"C08": ("runtime monitor: round-trip, range and ellipsoid-normal monitors on geodetic, spherical and topocentric conversions", "Latitude judged to the conditioning of the closed-form inversion."),
"C09": ("runtime monitor: reference precession/nutation/rotation chain and isometry monitors", "Judged to the first-order nutation accuracy stated in the property."),
"C10": ("runtime monitor: reference ephemeris series, continuity checker over dense scans, historical eclipses as external oracle", "Series compared term for term numerically; eclipses are catalogue facts."),
"C11": ("runtime monitor: each force component and their sum checked against an independent force model (Cunningham recursion)", "Sampled states; geopotential within 2e-7 of its size."),
"C12": ("runtime monitor: every propagation step replayed by a reference Runge-Kutta integrator; invariants and settings watched over programs", "One known finding (SRP coefficient dropped) is listed and reported."),
"C13": ("runtime monitor: closed-form Hill solution, split/merge and round-trip checkers over step histories", "Sampled states, radii and times."),
"C14": ("runtime monitor: reference curvilinear frame, rate and round-trip monitors", "Sampled origins and offsets incl. large arcs."),
"C15": ("runtime monitor: conservation ledger of velocity, time and propellant over maneuver programs, reference burn integrator", "Sampled programs of burns."),
"C16": ("runtime monitor: vis-viva and apsis-connection checker on planned transfers", "Sampled radius pairs."),
"C17": ("runtime monitor: step-by-step Kalman oracle over observation histories, covariance invariants, isolation of interleaved filters", "Sampled histories; positivity judged to rounding."),
"C18": ("runtime monitor: reference look geometry, round trips and statistics of simulated noise", "Noise judged by fixed-seed statistics."),
"C19": ("runtime monitor: recovered orbit re-propagated by an independent two-body model, loop-budget sanitizer for non-termination", "Sampled orbits and arcs up to 179 degrees."),
"C20": ("runtime monitor: model-based state machine of mode, target and slew timer run beside the spacecraft over operation histories", "Sampled programs over fleets of 2-4 spacecraft."),
"C21": ("runtime monitor: detection verdicts, photometry and camera limits recomputed from reference geometry", "Verdicts within 1e-7 of a limit are not judged."),
"C22": ("runtime monitor: bit-exact operand/constant snapshots around every call and an aliasing sanitizer that scrambles operands and results", "Catalogue of about 190 operations; one known finding (GCRF.copy drops srp_scalar)."),
"C23": ("runtime monitor: fresh-process differential oracle over polluted, shuffled, interleaved and threaded histories", "Bit-for-bit comparison; sampled histories and schedules."),
"C24": ("runtime monitor: exception, termination and floating-point sanitizer over the whole operation catalogue on degenerate operands and over spacecraft programs", "Sampled degenerate operands; lengths 1e-50 to 1e50; values inside the package are counted, only results and objects are judged."),
"C25": ("runtime monitor: cross-view consistency audit of whole missions after every event, plans flown and compared with what was planned", "Sampled missions; flown results judged to twice the truncation error of the documented 300 s integration, measured on the reference model."),
}
checks = [dict(property=k, quick_cmd="python3-vt check.py %s --tier quick" % k, thorough_cmd="python3-vt check.py %s --tier thorough" % k, evidence_file="evidence/%s.json" % k,
               technique=t, level="exploration",
               level_note="Runs the real code from /repo/src and judges every observed execution; trusts the independent reference model in vp/ref.py. " + n) for k, (t, n) in T.items()]
m = dict(version=1, setup_cmd="python3-vt -c \"import sys; assert sys.version_info >= (3, 12)\"", checks=checks, not_applicable=[],
         notes="No hooks in /repo: instrumentation is attached from outside with sys.monitoring. Checks need python3-vt only for Python 3.12's sys.monitoring (and numpy in C17); openspace itself is imported from /repo/src.")
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
