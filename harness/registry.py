"""Which harness decides which property, and which real sources go into it."""
# name: harness source, real sources of /repo, extra flags
BIN = {
    "web": dict(src="h_web.cpp", repo=["src/web/http_get.cpp"]),
    "icgem": dict(src="h_icgem.cpp", shims=[""], repo=["src/gravity/icgemio_rdhead.cpp", "src/gravity/icgemio_rddata.cpp", "src/gravity/harmonic_coeffs.cpp", "src/gravity/parse_coefficients.cpp"]),
    "icgemvar": dict(src="h_icgem.cpp", flags=["-DVAR"], inc=["var/icgem/src"], repo=["var/icgem/src/icgemio_rdhead.cpp", "var/icgem/src/icgemio_rddata.cpp", "var/icgem/src/harmonic_coeffs.cpp"]),
    "harm": dict(src="h_harm.cpp", repo=["src/gravity/harmonic_coeffs.cpp"]),
    "harmvar": dict(src="h_harm.cpp", flags=["-DVAR"], inc=["var/icgem/src"], repo=["var/icgem/src/harmonic_coeffs.cpp"]),
    "grav": dict(src="h_grav.cpp", shims=[""], repo=["src/gravity/gravity_acceleration.cpp", "src/gravity/lagrange_poly.cpp", "src/gravity/harmonic_coeffs.cpp"]),
    "gravvar": dict(src="h_grav.cpp", flags=["-DVAR"], shims=[""], inc=["var/icgem/src"], repo=["var/icgem/src/gravity_acceleration.cpp", "var/icgem/src/lagrange_poly.cpp", "var/icgem/src/harmonic_coeffs.cpp"]),
    "sg": dict(src="h_ode.cpp", shims=["sg"], inc=["src/integrators"], repo=["src/integrators/sgode_%s.cpp" % x for x in ("de", "step", "intrp")]),
    "sgvar": dict(src="h_ode.cpp", flags=["-DVAR"], inc=["var/ode_solvers"], repo=["var/ode_solvers/sgode_%s.cpp" % x for x in ("de", "step", "intrp")]),
    "sgO0": dict(src="h_ode.cpp", ropt=["-O0"], cov=False, shims=["sg"], inc=["src/integrators"], repo=["src/integrators/sgode_%s.cpp" % x for x in ("de", "step", "intrp")]),
    "sgvarO0": dict(src="h_ode.cpp", flags=["-DVAR"], ropt=["-O0"], cov=False, inc=["var/ode_solvers"], repo=["var/ode_solvers/sgode_%s.cpp" % x for x in ("de", "step", "intrp")]),
    "rkf": dict(src="h_ode.cpp", flags=["-DRKF"], inc=["var/ode_solvers"], repo=["var/ode_solvers/rkf45_%s.cpp" % x for x in ("rkfs", "fehl")]),
    "rinex": dict(src="h_rinex.cpp", shims=["dt", "matvec"], repo=["src/rinex/doris_rinex.cpp", "src/rinex/read_rnx_header.cpp", "src/rinex/rnx_datablock_iterator.cpp", "src/doris/doris_system_info.cpp", "src/doris/extract_doppler_count.cpp"]),
    "sat": dict(src="h_sat.cpp", shims=["dt", "matvec"], repo=["src/beacon_tbl/beacon_tbl.cpp", "src/satellites/satellite_corrections.cpp", "src/satellites/jason3_quaternions.cpp"], inc=["src", "src/satellites"]),
    "fit": dict(src="h_fit.cpp", shims=["dt", "matvec"], repo=["src/rinex/fit_rfo.cpp", "src/doris/fit_rfo.cpp", "src/rinex/doris_rinex.cpp", "src/rinex/read_rnx_header.cpp", "src/rinex/rnx_datablock_iterator.cpp", "src/doris/doris_system_info.cpp"]),
    "filt": dict(src="h_filt.cpp", hcov=True, shims=["dt"], repo=[]),
    "spice": dict(src="h_spice.cpp", hcov=True, shims=["", "dt", "matvec", "spice"], repo=["src/planets/cspice_utils.cpp", "src/sunmoon.cpp", "src/gravity/point_mass_acceleration.cpp"]),
    "orb": dict(src="h_orb.cpp", flags=["-DNEW_EOP"], shims=["orb", "", "dt", "matvec", "spice"], inc=["src", "src/satellites", "src/integrators"], repo=["src/variational_equations.cpp", "src/itrs2gcrs.cpp", "src/sunmoon.cpp", "src/planets/cspice_utils.cpp", "src/astrodynamics/drag.cpp", "src/satellites/jason3_quaternions.cpp", "src/iers/parse_c04.cpp", "src/iers/eop_interpolate.cpp", "src/var/celestrak_swdata.cpp"] + ["src/gravity/%s.cpp" % x for x in ("point_mass_acceleration", "gravity_acceleration", "lagrange_poly", "harmonic_coeffs")] + ["src/integrators/sgode_%s.cpp" % x for x in ("de", "step", "intrp")] + ["src/atmosphere/nrlmsise%s.cpp" % x for x in ("00_ccor", "00_ccor2", "00_data", "00_densm", "00_densu", "00_dnet", "00_get_flux_data", "00_ghp7", "00_glatf", "00_glob7s", "00_globe7", "00_gtd7", "00_gtd7d", "00_gts7", "00_params", "00_splini", "00_splint", "_spline")]),
    "astro": dict(src="h_astro.cpp", flags=["-fsanitize=bounds", "-fsanitize-trap=bounds"], shims=["orb", "", "dt", "matvec", "spice"], repo=["src/astrodynamics/%s.cpp" % x for x in ("kepler", "perifocal", "pos2ra", "propagate_state", "state2kepler", "state_partials", "solar_radiation", "occultation", "drag")] + ["src/relativity/relativistic_clock_correction.cpp", "src/planets/sunpos.cpp", "src/planets/moonpos.cpp", "src/atmosphere/exponential_atmospheric_model.cpp", "src/doris/doris_system_info.cpp"]),
    "yaml": dict(src="h_yaml.cpp", hcov=True, shims=["dt", "yaml"], repo=["src/var/yaml_utils.cpp"]),
    "sinex": dict(src="h_sinex.cpp", shims=["dt", "sinex"], repo=["src/ids/get_pdop_crd.cpp"]),
    "eop": dict(src="h_eop.cpp", shims=["dt"], repo=["src/iers/parse_c04.cpp", "src/iers/eop_interpolate.cpp"]),
    "atm": dict(src="h_atm.cpp", shims=["dt"], repo=["src/var/celestrak_swdata.cpp"] + ["src/atmosphere/nrlmsise%s.cpp" % x for x in ("00_ccor", "00_ccor2", "00_data", "00_densm", "00_densu", "00_dnet", "00_get_flux_data", "00_ghp7", "00_glatf", "00_glob7s", "00_globe7", "00_gtd7", "00_gtd7d", "00_gts7", "00_params", "00_splini", "00_splint", "_spline")]),
}
# property -> list of (binary, share of the search time)
PROP = {
    "W01": [("web", 1)],
    "W02": [("web", 1)],
    "G01": [("icgem", 2), ("icgemvar", 1)],
    "G02": [("icgem", 2), ("icgemvar", 1)],
    "G03": [("harm", 2), ("harmvar", 1)],
    "A01": [("grav", 2), ("gravvar", 1)],
    "I01": [("sg", 2), ("sgvar", 1)],
    "I02": [("sg", 3), ("sgvar", 2), ("sgO0", 2), ("sgvarO0", 1)],
    "I03": [("rkf", 1)],
    "R01": [("rinex", 1)],
    "R02": [("rinex", 1)],
    "R03": [("rinex", 1)],
    "B01": [("sat", 1)],
    "Q01": [("sat", 1)],
    "Q02": [("sat", 1)],
    "F01": [("filt", 1)],
    "F02": [("fit", 1)],
    "F03": [("fit", 1)],
    "Y01": [("yaml", 1)],
    "E01": [("eop", 1)],
    "S01": [("atm", 1)],
    "S02": [("atm", 1)],
    "N01": [("atm", 1)],
    "N02": [("atm", 1)],
    "E02": [("eop", 1)],
    "D01": [("sinex", 1)],
    "A03": [("orb", 1)],
    "V01": [("orb", 1)],
    "A02": [("astro", 1)],
    "A04": [("astro", 1)],
    "A05": [("astro", 1)],
    "A06": [("astro", 1)],
    "K01": [("spice", 1)],
    "K02": [("spice", 1)],
    "C01": [("py:fetch", 1)],
    "C04": [("py:fetch", 1)],
    "C05": [("py:fetch", 1)],
    "C02": [("py:fetch", 1)],
    "C03": [("py:fetch", 1)],
}
REAL = {
    "web": ("dso::http_get (src/web/http_get.cpp), std::filesystem, stdio buffering of glibc",
            "libcurl (scripted transfers), disk below the C library, process death, pids, clock"),
    "icgem": ("Icgem::parse_header/parse_data, parse_gravity_model, HarmonicCoeffs (src/), libstdc++ streams", "disk below the C library, thread scheduling"),
    "icgemvar": ("Icgem::parse_header/parse_data, HarmonicCoeffs (var/icgem/src/), libstdc++ streams", "disk below the C library, thread scheduling"),
    "harm": ("HarmonicCoeffs, Mat2D (src/)", "content of fresh memory, thread scheduling"),
    "harmvar": ("HarmonicCoeffs, Mat2D (var/icgem/src/)", "content of fresh memory, thread scheduling"),
    "grav": ("lagrange_polynomials, grav_potential_accel, HarmonicCoeffs, Mat2D (src/), Eigen", "content of fresh memory and work matrices, thread scheduling"),
    "gravvar": ("lagrange_polynomials, grav_potential_accel, HarmonicCoeffs, Mat2D (var/icgem/src/)", "content of fresh memory and work matrices, thread scheduling"),
    "sg": ("SGOde de/step/intrp (src/integrators), Eigen", "equations (known solutions), content of fresh memory and stack, thread scheduling"),
    "sgO0": ("SGOde de/step/intrp (src/integrators, unoptimised), Eigen", "equations (known solutions), content of fresh memory and stack, scheduling at the equations"),
    "sgvar": ("SGOde de/step/intrp (var/ode_solvers), Eigen", "equations (known solutions), content of fresh memory and stack, thread scheduling"),
    "sgvarO0": ("SGOde de/step/intrp (var/ode_solvers, unoptimised), Eigen", "equations (known solutions), content of fresh memory and stack, scheduling at the equations"),
    "rinex": ("DorisObsRinex, RinexDataBlockIterator, DORIS system info (src/), libstdc++ streams", "date library (stand-in: integer dates), disk below the C library, thread scheduling"),
    "sat": ("BeaconInformationTable, get_satellite_corrections, JasonQuaternionHunter (src/), Eigen, libstdc++ streams", "date library (stand-in: integer dates), disk below the C library, thread scheduling"),
    "fit": ("fit_relative_frequency_offset, DorisObsRinex, RinexDataBlockIterator, PolynomialModel (src/), Eigen, libstdc++ streams", "date library (stand-in: integer dates), disk below the C library, content of fresh memory, thread scheduling"),
    "filt": ("ExtendedKalmanFilter, EkfFilter, PolynomialModel (src/filters), Eigen", "date library (stand-in: integer dates), content of fresh memory, thread scheduling"),
    "eop": ("parse_iers_C04, EopLookUpTable (src/), libstdc++ streams", "date library (stand-in with the leap second table), IERS 2010 library (stand-in: Lagrange interpolation, smooth corrections), disk below the C library, content of fresh memory, thread scheduling"),
    "atm": ("parse_csv_for_date/get_next, Nrlmsise00DataFeed, InParams, Nrlmsise00 (src/), libstdc++ streams", "date and geodesy libraries (stand-ins), disk below the C library, content of fresh memory, thread scheduling"),
    "spice": ("load_if_unloaded_*, get_sun_moon_GM, sun/moon_vector_cspice, SunMoon, point_mass_accel (src/), Eigen", "CSPICE toolkit (stand-in: kernel list, error actions, constants, ephemerides), date library (stand-in)"),
    "orb": ("VariationalEquations, gcrs2itrs and the frame transformations, SunMoon, drag_accel, grav_potential_accel, parse_iers_C04, EopLookUpTable, JasonQuaternionHunter, Nrlmsise00DataFeed, Nrlmsise00, SGOde (src/), Eigen", "CSPICE toolkit, date, geodesy, SOFA and IERS 2010 libraries (stand-ins), disk below the C library, content of fresh memory, thread scheduling"),
    "astro": ("element conversions, propagation and partials, shadow, drag, radiation pressure and density formulas, antenna corrections, clock correction, analytic Sun and Moon (src/), Eigen", "matrix, date, geodesy and SOFA libraries (stand-ins with closed formulas), content of stack memory, thread scheduling"),
    "py:fetch": ("fetch_iers_c04.py, fetch_celestrak_space_weather_data_csv.py, ids_logs2station_info.py, gfc_fortran2c.py (script/ and var/icgem/script/), pydoris.log.ids_log_parser, buffered and text layers of Python's I/O", "requests module (scripted server and connections), disk below Python's raw files, directory listing order, clock, process death"),
    "yaml": ("get_yaml_value_depth2/3 (src/var_utils.hpp, src/var/yaml_utils.cpp)", "yaml-cpp (stand-in: node tree with its look-up and conversion rules and failing steps)"),
    "sinex": ("extrapolate_sinex_coordinates (src/ids)", "SINEX reader (stand-in over the simulated disk), date library (stand-in), disk below the C library, thread scheduling"),
    "rkf": ("RKF45 rkfs/fehl (var/ode_solvers), Eigen", "equations (known solutions), content of fresh memory and stack, thread scheduling"),
}
QUICK = {}
THOROUGH = {}
LEVEL = {}
ASSUME = {"N02": ["the coefficient tables of the reference are those of the code as they were (checked against the published cases to 1%), its formulas are written down independently"]}
TECH = {
    "W01": "http_get over a scripted libcurl, failing disk and process death at any I/O step; file-content invariant checked at every step",
    "W02": "several callers and repeated forced/unforced http_get calls over a failing network and disk; old-or-new content invariant at every step",
    "G01": "real loader over simulated storage (short/interrupted/failing reads, bad sectors, failed opens, truncation, damaged records), exact comparison with the generated model",
    "G02": "concurrent and repeated loads preempted at control-flow edges and I/O, with read faults and recovery, each compared with the generated model",
    "G03": "seeded histories of container operations (two preempted tasks, poisoned fresh memory) against a value model and an allocation balance",
    "A01": "seeded evaluation histories by preempted tasks sharing models, with work matrices reused over rubbish memory, compared with the differentiated series",
    "I01": "seeded histories of output times, directions, limits and restarts over systems with known solution, compared at each step",
    "I02": "concurrent (preempted), nested, sequential and reused integrators over rubbish memory compared bitwise with the same run alone; interrupted calls resumed under a step bound",
    "R01": "real observation-file reader over simulated storage (short/interrupted/failing reads, bad sectors, truncation, damaged header and records), exact comparison with the generated file",
    "R02": "several readers in preempted tasks or interleaved calls, reading and skipping blocks under read faults, each compared with its generated file",
    "B01": "concurrent loads of generated tables over simulated storage (read faults, bad sectors, truncation, damaged rows), compared with the rows valid at the epoch",
    "Q01": "seeded histories of attitude requests by concurrent hunters over simulated storage with damage and read faults, compared with an independent interpolation of the generated records",
    "Q02": "concurrent lookups over generated event histories with damage, truncation and read faults, compared with the last event before the epoch",
    "E01": "concurrent extractions over generated C04 files on simulated storage (read faults, bad sectors, truncation, damaged, missing, repeated, misplaced days), compared with the generated days",
    "E02": "seeded histories of table operations and lookups by preempted tasks over poisoned fresh memory, against a value model, with an allocation balance",
    "S01": "extraction histories with remembered positions by concurrent callers over generated space-weather files on simulated storage (read faults, bad sectors, truncation, damage, replacement by newer files), compared with the generated days",
    "S02": "seeded histories of epoch updates over simulated storage (read faults, damage, recovery, replacement), each compared with inputs computed directly from the generated days",
    "N01": "evaluation histories on several models by preempted tasks over rubbish memory, each compared with a new model and with one used for other conditions",
    "N02": "evaluation histories by preempted tasks over rubbish memory, each evaluation compared with an independent evaluation of the published model, and the published cases",
    "F01": "seeded histories of time and observation updates, a-priori settings and copies by preempted tasks over rubbish memory, each step compared with least squares in extended precision; polynomial models against a value model with an allocation balance",
    "Y01": "sequences of look-ups in generated configurations with steps that fail (allocation), every value compared with the tree, buffers exactly as long as the value",
    "F03": "histories of filter runs over generated observation files on simulated storage (read faults, bad sectors, truncation, damaged records, missing files), every printed estimate compared with the weighted least-squares estimate from all offsets so far in extended precision",
    "F02": "concurrent fits over generated observation files on simulated storage (read faults, bad sectors, truncation, damaged records, missing files), compared with least squares in extended precision",
    "K01": "seeded histories of kernel requests, unloads and repairs over a simulated ephemeris toolkit with load and read failures, full tables, pending errors and process ends, compared with its list of loaded kernels",
    "K02": "seeded histories of attraction and position requests over a simulated ephemeris toolkit with missing kernels and read failures, compared with the ephemerides in extended precision",
    "C01": "real script over a scripted network (drops, stalls, HTTP errors, damaged bulletins) and simulated storage with process death at any I/O step and a second invocation running at any step of the first; output compared with the published series",
    "C02": "repeated and overlapping downloads (a second invocation runs at any step of the first) over a scripted network, failing storage and process death at any I/O step; old-or-new content invariant of the target at every step",
    "C03": "real script over generated site logs on simulated storage (short and failing reads, damage, truncation, any directory order, full disk, process death), exact comparison with the generated antennas",
    "C04": "both copies of the real script over generated model files on simulated storage (short and failing reads, full disk, process death, missing header end), values compared number by number",
    "C05": "the real script over generated headers on simulated storage (short and failing reads and writes, full disk, process death, missing header), output compared line by line",
    "R03": "Doppler count lists over generated observation files on simulated storage (read faults, bad sectors, truncation, damage, missing values), compared with the counts of the generated file",
    "D01": "concurrent extrapolations from generated solutions on simulated storage (read faults, bad sectors, truncation, missing files, stations, components, other units), compared in extended precision",
    "A03": "seeded histories of epochs in, around and outside generated Earth orientation tables on simulated storage, by preempted tasks over rubbish memory; rotations, angles, states, round trips and numerical derivatives compared in extended precision",
    "V01": "seeded histories of epochs and states of one to three satellites in preempted tasks, over generated gravity fields, Earth orientation, space weather and attitude on simulated storage and a simulated ephemeris toolkit (read faults, bad sectors, missing kernels and constants, missing days and records); every derivative and whole arcs compared with an independent assembly",
    "A02": "seeded histories of conversions and propagations by preempted tasks over rubbish memory, compared with Keplerian motion in extended precision and its numerical derivatives",
    "A04": "seeded flights through sunlight, contact and shadow by preempted tasks over rubbish memory, each value compared with its model in extended precision",
    "A05": "seeded requests of stations by preempted tasks over rubbish memory, each compared with the published tables and formulas in extended precision",
    "A06": "seeded histories of epochs by preempted tasks over rubbish memory, compared with the published series in extended precision",
    "I03": "seeded histories of output times over systems with known solution, and concurrent, nested and sequential integrators compared bitwise with the same run alone",
}
NOTE = {k: "What the simulator varies here is memory, history and interleaving; the functions have no I/O or clock, so no faults are injected. Seeded search, no claim beyond the explored seeds." for k in ("A02", "A04", "A05", "A06")}
