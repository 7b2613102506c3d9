#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for ids, titles, statements, anchors)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

NOIO = "The three tests that run here touch no file that can fail, no network and no second caller; "

prop("W01", "A download is complete or reported as failed",
 "When a download call reports success, the local file holds exactly the bytes of the remote body. When it reports an error, or the process dies at any point during the transfer, no partial or wrong content is left under the requested local name, so that a later call that skips existing files can never mistake a fragment for the file. A call that has returned leaves no other file behind and holds no transfer open.",
 ["fault_sequences", "crash_points", "inputs"],
 "every remote body, chunking, connection/HTTP failure, local open/write/flush/close failure and crash point, alone and in sequences of repeated calls",
 NOIO + "a download test on a healthy network sees only whole transfers and an unlimited disk.",
 ["src/web/http_get.cpp", "src/cweb.hpp"],
 [("write callback and removal of the local file on error", "src/web/http_get.cpp http_get()/write_data()"),
  ("status code translation", "src/web/http_get.cpp http_get() return")],
 observe=["return value of the download call", "bytes of the local file"])

prop("W02", "Downloads never damage a file that is already there",
 "If the local file exists and overwriting was not requested, the call says so without contacting the server and the file is untouched. If overwriting was requested, the old content stays in place until the complete new body replaces it, so a failed or interrupted refresh leaves the old file intact.",
 ["fault_sequences", "crash_points", "schedules"],
 "every sequence of forced and non-forced calls for the same name, by one or several callers, with any failure or crash in any of them",
 NOIO + "no test refreshes an existing file over a failing connection or disk.",
 ["src/web/http_get.cpp", "src/cweb.hpp"],
 [("existence check", "src/web/http_get.cpp file_exists()"), ("opening of the output file", "src/web/http_get.cpp http_get()")],
 observe=["return value", "local file bytes before/after", "requests seen by the server"])

prop("G01", "A gravity model loads exactly as published, or the load fails",
 "If loading a gravity model up to a requested degree and order reports success, every coefficient of that degree and order, the gravitational constant, the reference radius and the normalisation are exactly those of the model file. If the file cannot be read to its end, is cut short, lacks needed header entries or coefficients, or does not reach the requested degree, the load reports an error; an intact file always loads, however the reads are split or interrupted.",
 ["inputs", "fault_sequences", "configurations"],
 "every well-formed model file (header spelling and layout, degree, order, normalisation, record order) and requested degree/order, with any short or interrupted read, read error, failed open or truncation point",
 "The stable tests load no model file at all; an example run reads one intact file, so truncation, read errors and unusual headers are never met.",
 ["src/gravity/icgemio_rdhead.cpp", "src/gravity/icgemio_rddata.cpp", "src/icgemio.hpp", "src/gravity/parse_coefficients.cpp", "var/icgem/src/icgemio_rdhead.cpp", "var/icgem/src/icgemio_rddata.cpp", "var/icgem/src/icgemio.hpp"],
 [("header scan and keyword matching", "src/gravity/icgemio_rdhead.cpp Icgem::parse_header()"),
  ("coefficient records and completeness count", "src/gravity/icgemio_rddata.cpp Icgem::parse_data()"),
  ("the same in the stand-alone copy", "var/icgem/src/icgemio_rdhead.cpp, var/icgem/src/icgemio_rddata.cpp")],
 observe=["status of header and data parse", "every stored C(n,m), S(n,m), GM, radius, normalisation"])

prop("G02", "Gravity model loads do not disturb each other",
 "Loading a model gives the same coefficients and the same status whatever was loaded before, whether the destination storage is fresh or reused for a different size, and whatever other loads run at the same time in other threads. In particular a failed load is followed by a fully correct load when it is retried on a healthy file.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of several concurrent loads and every sequence of loads, failed loads and resizes on shared or separate storage",
 "The tests run one load at most, in one thread, into fresh storage.",
 ["src/gravity/icgemio_rdhead.cpp", "src/gravity/icgemio_rddata.cpp", "src/gravity/harmonic_coeffs.cpp", "src/harmonic_coeffs.hpp", "var/icgem/src/icgemio_rddata.cpp", "var/icgem/src/harmonic_coeffs.cpp"],
 [("per-object header state", "src/icgemio.hpp class Icgem"), ("storage resize before load", "src/gravity/harmonic_coeffs.cpp resize()")],
 observe=["statuses and all coefficients of each load"])

prop("G03", "Coefficient and matrix containers behave as independent values",
 "After any sequence of creation, copy, move, assignment, resizing and element writes, every live container of harmonic coefficients or packed matrix holds exactly the values written to it through it, never shares storage with another, and gives back all its memory exactly once when destroyed. Normalisation state is converted exactly once and travels with the values.",
 ["histories", "schedules"],
 "every sequence of operations over several containers, any sizes, any starting content of fresh memory, and interleaved use by threads on different containers",
 "Tests construct one container and read it once; sequences of copies, moves, self-assignments and shrinking resizes are never made.",
 ["src/harmonic_coeffs.hpp", "src/gravity/harmonic_coeffs.cpp", "src/cmat2d.hpp", "var/icgem/src/harmonic_coeffs.hpp", "var/icgem/src/harmonic_coeffs.cpp", "var/icgem/src/compact2dmat.hpp"],
 [("allocation, release and resize", "src/gravity/harmonic_coeffs.cpp"), ("copy/move members", "src/harmonic_coeffs.hpp"), ("packed storage", "src/cmat2d.hpp")],
 observe=["element values", "allocator balance"])

prop("R01", "Observation files are read exactly, or the reader says it failed",
 "Reading a DORIS observation file delivers the header information and then every epoch in file order with its epoch time, flags, clock offset, beacons and observation values (scaled, with blank or zero fields marked missing) exactly as written. Observables and stations print as the file names them, whatever their fields hold. The end of data is signalled only at the real end of the file: a read error, a truncated block or a damaged record is reported as an error and never delivered as observations, and short or interrupted reads change nothing.",
 ["inputs", "fault_sequences"],
 "every well-formed file (number and kind of observation types, scale factors, beacons, blank fields, stripped trailing blanks) with any read splitting, interruption, read error or truncation point",
 NOIO + "the reader is not built by the test suite at all; example programs read one intact file.",
 ["src/doris_rinex.hpp", "src/rinex/doris_rinex.cpp", "src/rinex/read_rnx_header.cpp", "src/rinex/rnx_datablock_iterator.cpp", "src/doris/doris_system_info.cpp", "src/doris_system_info.hpp"],
 [("header parse", "src/rinex/read_rnx_header.cpp read_header()"), ("record header parse", "src/rinex/doris_rinex.cpp resolve_data_epoch()"),
  ("block parse", "src/rinex/doris_rinex.cpp read_data_block()"), ("iteration and end/error codes", "src/rinex/rnx_datablock_iterator.cpp next()")],
 observe=["construction success", "iterator return codes and delivered values"])

prop("R02", "Observation readers are independent of each other",
 "Any number of observation-file readers can be used at the same time, from one or several threads and in any order of calls, and each delivers exactly what it would deliver alone. Skipping blocks on one reader leaves it at the same next epoch as reading them would.",
 ["schedules", "histories"],
 "every interleaving of reads and skips on several readers, preempting anywhere including inside a file read",
 "No test opens two files, and an interleaving inside one call cannot be provoked from a unit test.",
 ["src/rinex/doris_rinex.cpp", "src/rinex/rnx_datablock_iterator.cpp", "src/doris_rinex.hpp"],
 [("line buffers", "src/rinex/doris_rinex.cpp read_data_block()"), ("block skipping", "src/rinex/doris_rinex.cpp skip_data_block()")],
 observe=["blocks delivered by each reader"])

prop("E01", "Earth-orientation extraction is complete for the interval or fails",
 "When extracting Earth-orientation parameters for a span of days reports success, the table holds each requested day exactly once, in order, with the values and units conversion of the source file, and nothing else. Any missing day, malformed or truncated line, failed open or read error is reported as an error; an intact file always succeeds however the reads are split.",
 ["inputs", "fault_sequences"],
 "every source file and requested span with any read splitting, interruption, read error, failed open, truncation point or missing day",
 NOIO + "the extraction is not built by the tests.",
 ["src/eop.hpp", "src/iers/parse_c04.cpp"],
 [("file scan and day count check", "src/iers/parse_c04.cpp parse_iers_C04()")],
 observe=["status", "table contents"])

prop("E02", "Earth-orientation tables are values and lookups have no memory",
 "A copied, moved, assigned or resized Earth-orientation table holds exactly the same days and values as its source did and shares nothing with it. Interpolating at an epoch depends only on the table and the epoch, reproduces the tabulated values at tabulated days, and reports an error for epochs outside the table, whatever lookups were made before or run concurrently.",
 ["histories", "schedules"],
 "every sequence of table copies, moves, assignments, resizes and lookups over several tables, any content of fresh memory, any interleaving of concurrent lookups",
 "No test builds a table; history and interleaving are not sampled at all.",
 ["src/eop.hpp", "src/iers/eop_interpolate.cpp"],
 [("copy/move members and resize", "src/eop.hpp EopLookUpTable"), ("interpolation", "src/iers/eop_interpolate.cpp")],
 observe=["table contents", "interpolated values and status"])

prop("S01", "Space-weather extraction is complete for the requested days or fails",
 "When extracting space-weather records for a date and its neighbouring days from a CSV file reports success, every requested day is present exactly once, in order, with the indices written for that day in the file. A missing day, an unreadable or truncated file or a malformed line is reported as an error, and the remembered file position never makes a later extraction return anything else than an extraction from the top of the file.",
 ["inputs", "fault_sequences", "histories"],
 "every file, every requested date, every sequence of extractions using the remembered position, with any read splitting, error or truncation point",
 NOIO + "the extraction is not built by the tests.",
 ["src/var/celestrak.hpp", "src/var/celestrak_swdata.cpp", "src/var_utils.hpp"],
 [("CSV scan", "src/var/celestrak_swdata.cpp parse_csv_for_date()"), ("incremental step", "src/var/celestrak_swdata.cpp get_next()")],
 observe=["status", "records returned"])

prop("S02", "The atmospheric data feed gives the same inputs as starting afresh",
 "After any sequence of epoch updates (within a 3-hour slot, across slots, to the next day, jumping forward or back), successful or failed, a successful update leaves exactly the solar-flux and geomagnetic inputs that a newly created feed gives for that epoch. A failed update is reported, and once the file is readable again the next update recovers.",
 ["histories", "fault_sequences"],
 "every sequence of epochs, with read failures in any subset of the updates",
 "No test updates a feed; the cached-day state is only reachable through sequences of epochs.",
 ["src/atmosphere/nrlmsise00_get_flux_data.cpp", "src/atmosphere/nrlmsise00.hpp", "src/var/celestrak_swdata.cpp"],
 [("cached day and slot", "src/atmosphere/nrlmsise00_get_flux_data.cpp Nrlmsise00DataFeed::update()/init()")],
 observe=["status of update", "flux and magnetic index inputs"])

prop("N01", "Atmospheric density depends only on its inputs",
 "Evaluating the empirical atmosphere model with given inputs gives the same densities and temperatures (to rounding) whatever was evaluated before, by whichever model instance, and whatever other evaluations run concurrently. A new instance gives the same results as one that has been used before.",
 ["histories", "schedules"],
 "every sequence and interleaving of evaluations over several instances, any inputs and switch settings, any content of fresh memory",
 "No test evaluates the model; hidden carry-over between evaluations only shows in particular sequences (same latitude, day or local time reused on another instance).",
 ["src/atmosphere/nrlmsise00_globe7.cpp", "src/atmosphere/nrlmsise00_glob7s.cpp", "src/atmosphere/nrlmsise00_gts7.cpp", "src/atmosphere/nrlmsise00_gtd7.cpp", "src/atmosphere/nrlmsise00_gtd7d.cpp", "src/atmosphere/nrlmsise00.hpp"],
 [("cached latitude, local time and day terms", "src/atmosphere/nrlmsise00_globe7.cpp, nrlmsise00_glob7s.cpp")],
 state=[("function-level static caches", "last latitude/local time/day used", "src/atmosphere/nrlmsise00_globe7.cpp")],
 observe=["densities and temperatures returned"])

prop("N02", "The density model evaluates NRLMSISE-00",
 "For every epoch, position, solar and magnetic activity and switch setting within the model's domain, the empirical atmosphere model returns the temperatures and the densities of the selected gases that the published NRLMSISE-00 formulation gives (to rounding, with this library's constants for gravity and the gas constant): with daily or 3-hourly indices, per cm^3 or in SI units, with or without the contribution of anomalous oxygen to the total, from the ground to the exosphere; and the cases published with the model are reproduced.",
 ["histories", "schedules"],
 "every input within the model's domain, every switch setting and selected gas, whatever was evaluated before",
 "No test evaluates the model; each of the many regions, switches and coefficient tables matters only for particular altitudes, seasons and activity.",
 ["src/atmosphere/nrlmsise00_globe7.cpp", "src/atmosphere/nrlmsise00_glob7s.cpp", "src/atmosphere/nrlmsise00_gts7.cpp", "src/atmosphere/nrlmsise00_gtd7.cpp", "src/atmosphere/nrlmsise00_gtd7d.cpp", "src/atmosphere/nrlmsise00_densm.cpp", "src/atmosphere/nrlmsise00_densu.cpp", "src/atmosphere/nrlmsise00_data.cpp", "src/atmosphere/nrlmsise00.hpp"],
 [("evaluation at and above 72.5 km", "src/atmosphere/nrlmsise00_gts7.cpp Nrlmsise00::gts7()"), ("below 72.5 km", "src/atmosphere/nrlmsise00_gtd7.cpp Nrlmsise00::gtd7()")],
 observe=["densities and temperatures returned"])

prop("Q01", "Attitude lookups use the two records around the epoch, or fail",
 "For any non-decreasing or repeated sequence of requested epochs, a successful attitude lookup returns the unit quaternion interpolated between the two consecutive records of the file that bracket the epoch. If there is no such pair (before the data still held, after the end of the file) or the file is damaged, truncated or fails to read, the lookup reports an error, and no later lookup succeeds with data from a damaged record.",
 ["histories", "fault_sequences", "inputs"],
 "every sequence of epochs over any record spacing, comments, truncation point, damaged line or read failure",
 NOIO + "the lookup keeps a sliding window whose content depends on the whole request history.",
 ["src/satellites/jason3_quaternions.hpp", "src/satellites/jason3_quaternions.cpp"],
 [("sliding window", "src/satellites/jason3_quaternions.cpp set_at()"), ("record parse", "src/satellites/jason3_quaternions.cpp resolve_jason3_body_quaternion_line()")],
 observe=["status", "quaternion returned"])

prop("Q02", "Satellite mass corrections are the latest ones before the epoch",
 "A successful lookup of satellite mass and centre-of-gravity corrections returns the values of the last event before the requested epoch (zero when there is none). If the history file cannot be opened, read or parsed up to the epoch, the lookup reports an error instead of returning an earlier or partial correction. Masses and centres of gravity are corrected from the satellite's published initial values; its phase centres, names and macro model are the published ones.",
 ["inputs", "fault_sequences"],
 "every event history and epoch, with any read splitting, failed open, read error or truncation point",
 NOIO + "the lookup is not built by the tests.",
 ["src/satellites/satellite_corrections.cpp", "src/satellites.hpp"],
 [("event scan", "src/satellites/satellite_corrections.cpp get_satellite_corrections()")],
 observe=["status", "the four corrections"])

prop("B01", "Beacon tables list exactly the beacons active at the epoch",
 "Loading a beacon information table for an epoch returns one entry per table row whose validity interval contains the epoch, with its identifier, height and interval, in file order. If the table cannot be opened, read to its end or parsed, the caller is told by an exception rather than given a shortened list.",
 ["inputs", "fault_sequences", "histories"],
 "every table and epoch, repeated loads, with any read splitting, failed open, read error or malformed row",
 NOIO + "the loader is not built by the tests.",
 ["src/beacon_tbl.hpp", "src/beacon_tbl/beacon_tbl.cpp"],
 [("row parse and interval test", "src/beacon_tbl/")],
 observe=["entries returned or exception"])

prop("I01", "Multistep integration reaches every requested time with the right state",
 "Integrating a smooth ordinary differential equation with the variable-step multistep integrator through any sequence of output times (dense, sparse, repeated, forwards, reversed) gives at each reported success a state at exactly the requested time that agrees with the true solution within a small multiple of the requested tolerance. Where the output points are placed does not change the solution beyond that tolerance, and the number of evaluations of the equations stays in keeping with the tolerance and the length of the interval.",
 ["histories", "inputs"],
 "every sequence of output times and direction changes, tolerances, dimensions and smooth systems with known solution",
 "The example integrates one system forwards over one set of output times and prints it.",
 ["src/integrators/sgode_de.cpp", "src/integrators/sgode_step.cpp", "src/integrators/sgode_intrp.cpp", "src/integrators.hpp", "src/integrators/sgode.hpp", "var/ode_solvers/sgode_de.cpp", "var/ode_solvers/sgode_step.cpp", "var/ode_solvers/sgode_intrp.cpp", "var/ode_solvers/sgode.hpp"],
 [("driver, restart and interpolation decisions", "src/integrators/sgode_de.cpp de()"), ("step and order selection", "src/integrators/sgode_step.cpp step()"), ("interpolation to output", "src/integrators/sgode_intrp.cpp")],
 observe=["state, time and status at each output"])

prop("I02", "Integrators share nothing and resume after an interrupted call",
 "Integrator objects used at the same time by several threads, nested in each other's equations, or reused for a new problem give exactly the results each gives alone in fresh memory. When a call stops early because of its step limit, continuing with the same arguments completes the integration with the same accuracy in a bounded number of calls.",
 ["schedules", "histories"],
 "every interleaving at the evaluations of the equations, every sequence of problems on one object, every content of fresh memory, step-limit stops at any point",
 "The example uses one integrator once, in one thread, never near the step limit.",
 ["src/integrators/sgode_de.cpp", "src/integrators/sgode_step.cpp", "src/integrators/sgode.hpp", "var/ode_solvers/sgode_de.cpp", "var/ode_solvers/sgode_step.cpp", "var/ode_solvers/sgode.hpp"],
 [("integration state kept between calls", "src/integrators/sgode.hpp"), ("status flag protocol", "src/integrators/sgode_de.cpp")],
 observe=["states, statuses, number of calls"])

prop("I03", "Runge-Kutta integration reaches the requested times accurately",
 "Integrating a smooth ordinary differential equation with the variable-step Runge-Kutta integrator through any sequence of output times, forwards or backwards, gives at each reported success the state at exactly the requested time, within a small multiple of the requested tolerance and with a number of evaluations of the equations in keeping with it. Invalid arguments are refused and leave the state alone. Integrators used at the same time or reused for another problem do not influence each other.",
 ["histories", "schedules", "inputs"],
 "every sequence of output times, tolerances and smooth systems with known solution; interleavings of several integrators; any content of fresh memory",
 "The example integrates one system once.",
 ["var/ode_solvers/rkf45.hpp", "var/ode_solvers/rkf45_rkfs.cpp", "var/ode_solvers/rkf45_fehl.cpp"],
 [("step control", "var/ode_solvers/rkf45_rkfs.cpp"), ("stage evaluation", "var/ode_solvers/rkf45_fehl.cpp")],
 observe=["state, time and status at each output"])

prop("F01", "Sequential filtering equals the batch least-squares solution",
 "Processing any sequence of measurements one at a time through the orbit filter gives the same estimate and covariance as solving all of them together with the same prior, independent of the order of measurements of one epoch, and the covariance stays symmetric and positive. Setting a prior or reading an estimate for one beacon or parameter, or for all of them at once, touches exactly those. Filters and polynomial models are independent values: a copy, assignment or move never changes another one.",
 ["histories", "configurations"],
 "every sequence of measurement updates, time updates and prior settings for any number of beacons",
 "No test runs the filter; the identity must hold over whole measurement histories.",
 ["src/filters/ekf.hpp", "src/filters/filters.hpp", "src/filters/models.hpp"],
 [("gain and covariance update", "src/filters/ekf.hpp"), ("parameter indexing", "src/filters/filters.hpp")],
 observe=["estimates and covariance after each update"])

prop("F02", "Frequency offset fits use every value of every file, or fail",
 "On success, the polynomial fitted to the receiver frequency offsets of a list of observation files is the least-squares polynomial, in seconds from the reference epoch of the first file, through the means of each group of consecutive offsets inside the requested interval (the last group of a file may be smaller), placed midway between the group's first and last epoch in the requested time scale. Epochs without an offset are left out. If a file is missing, cut short, damaged or cannot be read, holds no offsets, or too few data are there for the order of the polynomial, the fit fails.",
 ["inputs", "fault_sequences", "schedules", "configurations"],
 "every list of files, order of the polynomial, group size, time scale and interval, with any read splitting, read error, truncation or damaged record, and several fits at the same time",
 "No test fits anything; the errors depend on how many values are left over, missing or unreadable.",
 ["src/rinex/fit_rfo.cpp", "src/doris_rinex.hpp", "src/filters/models.hpp"],
 [("grouping and midpoints", "src/rinex/fit_rfo.cpp parse_rinex_rfos()"), ("least squares", "src/rinex/fit_rfo.cpp fit_relative_frequency_offset()")],
 observe=["return value", "fitted model at the epochs of the data"])

prop("F03", "The frequency offset filter uses every offset once, or fails",
 "Filtering the receiver frequency offsets of a list of observation files gives, after every epoch that has an offset, in the order of the files, the epoch, the offset and the estimate (offset at the first epoch, drift per day, and their accuracies) that follows from all offsets so far with the given standard deviations and the a-priori values (first offset, drift 3); epochs without beacons or without an offset are left out, and the model reported at the end is the last estimate. A missing, damaged, truncated or unreadable file, a file without offsets or differing offsets within an epoch is reported as an error and nothing from damaged blocks is used. No result depends on earlier runs.",
 ["inputs", "fault_sequences", "histories"],
 "every list of files and standard deviations, with epochs without beacons or offsets, any read splitting, read error, truncation, damaged record or missing file",
 "Nothing calls it in the tests; an empty epoch or a blank value only spoils the estimate.",
 ["src/doris/fit_rfo.cpp", "src/doris_rinex.hpp", "src/rinex/rnx_datablock_iterator.cpp"],
 [("update", "src/doris/fit_rfo.cpp LinearKalman::update()"), ("reading", "src/doris/fit_rfo.cpp get_rinex_rfo()")],
 observe=["printed estimates and model", "status"])

prop("Y01", "Configuration values are those of the named keys, or an error",
 "Looking up a value two or three keys deep in a configuration gives, on success, exactly the value at that path, as number, text or characters (nothing is written beyond the text and its end); a missing key, a value of another type, a path through something that is not a mapping or a failure on the way is reported (as an error code or, three keys deep, possibly as an exception) and never yields another value.",
 ["inputs", "histories", "fault_sequences"],
 "every configuration tree and path (missing keys, scalars, sequences and nulls on the way), requested type, sequence of look-ups, failing step",
 "The library needed is not there, so nothing is built by the tests.",
 ["src/var_utils.hpp", "src/var/yaml_utils.cpp"],
 [("look-up", "src/var_utils.hpp get_yaml_value_depth2()"), ("text look-up", "src/var/yaml_utils.cpp")],
 observe=["return value", "value"])

prop("K01", "Ephemeris kernels are loaded when needed, once, and failures are reported",
 "After a request to load a planetary kernel succeeds, that kernel is loaded, and however often and in whatever order kernels are requested, each is loaded exactly once and no other is mistaken for it. If the kernel cannot be loaded the failure is reported and a later request tries again. Gravitational constants and positions of the Sun and the Moon are those of the loaded kernels; if these do not provide them, that is reported.",
 ["histories", "fault_sequences"],
 "every sequence of requests over kernels with arbitrary (also similar or long) names, other kernels loaded or unloaded in between, load and read failures, full kernel tables, errors pending from other calls, and both error actions of the ephemeris toolkit",
 "The code needs an external ephemeris library, absent here; repeated and similar requests are never tried.",
 ["src/planets/cspice_utils.cpp", "src/planetpos.hpp"],
 [("search of the loaded kernels", "src/planets/cspice_utils.cpp"), ("constants and positions", "src/planetpos.hpp j2planet_pos_from(), src/planets/cspice_utils.cpp get_sun_moon_GM()")],
 observe=["loads seen by the ephemeris library", "status", "constants and positions"])
prop("K02", "Sun and Moon attraction follows the loaded ephemeris",
 "The attraction of a point mass on a satellite, relative to that on the Earth, is Newton's in every form offered; that of the Sun and of the Moon is that of point masses at their positions in the loaded ephemeris at the given atomic time, relative to the attraction on the Earth, in m/s^2; the partials are the derivatives of the Moon's attraction with respect to the satellite position, and the Sun position is in metres. Whatever was loaded, unloaded or failed before makes no difference, and if the ephemeris or the leap seconds are not available, that is reported.",
 ["histories", "fault_sequences", "inputs"],
 "every epoch, satellite position and gravitational constants, after any sequence of kernel loads, failures and process restarts",
 "Not built by the tests (needs the ephemeris library).",
 ["src/sunmoon.cpp", "src/gravity/point_mass_acceleration.cpp", "src/planetpos.hpp"],
 [("time scales and units", "src/sunmoon.cpp SunMoon()"), ("attraction and partials", "src/gravity/point_mass_acceleration.cpp")],
 observe=["accelerations, partials, Sun position", "status"])

prop("C01", "The merged Earth-orientation file covers the requested span or none is made",
 "When the Earth-orientation fetch script succeeds, the merged output lists every day from the first to the last bulletin used, sorted, without repetitions, with the published values, and covers the requested date plus and minus the day limit. On HTTP errors, missing, truncated or malformed bulletins or write failures it ends with a failure in a bounded number of requests and leaves no output that looks complete. Another invocation writing the same output at the same time never damages it.",
 ["fault_sequences", "inputs", "crash_points", "schedules"],
 "every requested date and day limit, every layout of bulletin boundaries, any HTTP error, truncated body, dropped connection or failing write, and a second invocation at any point of the first",
 "The script has no tests and needs a live server; boundary dates and failures are not sampled.",
 ["script/fetch_iers_c04.py"],
 [("bulletin search loop", "script/fetch_iers_c04.py __main__"), ("merge order", "script/fetch_iers_c04.py c04_dict_to_sorted_list()"), ("bulletin parse", "script/fetch_iers_c04.py c04_get_final_data_01()/_03()")],
 observe=["exit status", "output file", "requests made"])

prop("C02", "Data fetch scripts keep only complete, genuine downloads",
 "When the space-weather fetch script exits successfully the target file holds exactly the data file served. On an HTTP error, a dropped connection, a full disk or a crash it exits with a failure and any earlier copy of the target file is still there, whole. This holds too when another invocation fetches to the same target at the same time.",
 ["fault_sequences", "crash_points", "schedules"],
 "every server response (status, body, drop), every write failure and crash point, with and without an earlier copy, and a second invocation at any point of the first",
 "The script has no tests and needs a live server.",
 ["script/fetch_celestrak_space_weather_data_csv.py"],
 [("download and save", "script/fetch_celestrak_space_weather_data_csv.py __main__")],
 observe=["exit status", "target file bytes"])

prop("C03", "Station tables list every antenna in the site logs",
 "Extracting station information from a directory of site logs lists every antenna entry of every log, once, with its identifier, installation and removal dates and height, independent of the order in which the directory is listed. A log that cannot be read to the end of its antenna section is reported as an error and never yields a shortened list as success.",
 ["inputs", "fault_sequences", "schedules"],
 "every set of logs, directory order, read splitting, read error or truncation point",
 "The script has no tests.",
 ["script/ids_logs2station_info.py", "script/pydoris/pydoris/log/ids_log_parser.py"],
 [("block parse", "script/pydoris/pydoris/log/ids_log_parser.py parse_this_block()"), ("directory walk", "script/ids_logs2station_info.py")],
 observe=["exit status", "table rows"])

prop("C04", "Converted gravity files keep every value, or the conversion fails",
 "Converting a gravity model file from Fortran exponents writes every line of the file in order, with every number of the data section that uses a D exponent rewritten to an equal number a C program can read and everything else unchanged. A file without an end of header, a file that cannot be read or an output that cannot be written ends in a failure within a bounded number of steps.",
 ["inputs", "fault_sequences", "crash_points"],
 "every mix of numbers as Fortran writes them, line endings and headers, every read or write failure",
 "The script has no tests.",
 ["script/gfc_fortran2c.py", "var/icgem/script/gfc_fortran2c.py"],
 [("header loop", "script/gfc_fortran2c.py"), ("number pattern", "script/gfc_fortran2c.py re.sub")],
 observe=["exit status", "standard output"])

prop("C05", "A wrapped C header keeps every declaration, or the wrapping fails",
 "Wrapping a C header for use from C++ writes the opening guard, then every line of the header in order with at most blank space at its ends changed, then the closing guard. A header that is missing or cannot be read to its end, or an output that cannot be written, ends in a non-zero exit status, so that an incomplete header is never taken for a complete one.",
 ["inputs", "fault_sequences", "crash_points"],
 "every header text and length, every read or write failure or point of process death",
 "The script has no tests, and a header that misses its last lines shows only where a later program misses a declaration or the closing brace.",
 ["script/jpl/c2cpp_header.py"],
 [("copy loop", "script/jpl/c2cpp_header.py")],
 observe=["exit status", "standard output"])

prop("R03", "Doppler counts follow the observations of the file",
 "Listing the Doppler counts of an observation file writes, in the order of the file, one line for every observation of a beacon that was observed before, with the beacon, the time, the differences of the L1 and of the L2 phase and of the times since its previous observation; pairs with a missing phase are left out. The list does not depend on earlier reads or listings of the same object. A damaged or truncated file, a read error or a file without both phases is reported as an error and lines taken from damaged blocks are never written.",
 ["inputs", "fault_sequences", "histories"],
 "every sequence of blocks, beacons, missing values and observables, every read splitting, error or truncation point, any earlier use of the reader",
 "A program lists one file that is not part of the repository.",
 ["src/doris/extract_doppler_count.cpp", "src/rinex/doris_rinex.cpp"],
 [("pairing of observations", "src/doris/extract_doppler_count.cpp compute_ndop(), update()"), ("file loop", "src/doris/extract_doppler_count.cpp get_doppler_counts()")],
 observe=["status", "lines written"])

prop("D01", "Extrapolated beacon coordinates belong to the beacon and the epoch",
 "Extrapolating beacon coordinates from a solution file yields, for every requested station that the file solves, in the order requested and under its own name, the position at the requested epoch from its position, velocity and reference epoch. In strict mode an unknown station or one without a complete solution in metres and metres per year is an error; otherwise such stations, and only they, are left out. An unreadable, truncated or missing file is an error and never ends the program.",
 ["inputs", "fault_sequences", "schedules"],
 "every set of stations (also with similar names), solution file, epoch, read failure, truncation, and interleaving of concurrent callers",
 "A program prints coordinates from files that are not part of the repository.",
 ["src/ids/get_pdop_crd.cpp", "src/doris_utils.hpp"],
 [("matching and extrapolation", "src/ids/get_pdop_crd.cpp extrapolate_coordinates()"), ("selection of stations", "src/ids/get_pdop_crd.cpp extrapolate_sinex_coordinates()")],
 observe=["status", "coordinates"])

# ---- important, but outside what deterministic simulation can decide here
prop("A01", "Gravity acceleration equals the spherical-harmonic series and its gradient",
 "The computed gravitational acceleration is the gradient of the spherical-harmonic potential of the loaded model up to the requested degree and order, and the returned partial derivatives (all nine) are the derivatives of that acceleration. Neither depends on what the work matrices or the result matrix held before, nor on other evaluations running at the same time with the same model.",
 ["histories", "schedules", "inputs"], "every sequence of positions outside the Earth, degrees, orders and coefficient sets evaluated with reused work matrices; interleavings of several evaluations sharing a model; any content of fresh memory",
 "Tests print a few values for one position with new work matrices.", ["src/gravity/gravity_acceleration.cpp", "src/gravity/lagrange_poly.cpp", "src/egravity.hpp", "var/icgem/src/gravity_acceleration.cpp", "var/icgem/src/lagrange_poly.cpp"],
 [("recursions", "src/gravity/lagrange_poly.cpp"), ("sums over degree and order", "src/gravity/gravity_acceleration.cpp")], observe=["acceleration and partials"])
prop("A02", "Two-body orbits, elements and their partials describe the same motion",
 "For every elliptic orbit that is inclined to the equator, whatever its node, perigee and anomaly (also 0, pi/2, pi, on the axes, exactly polar): state from elements, elements from state, perifocal and equatorial states, and propagation over any time span, forward or back, in one step or many, agree with Keplerian motion in every variant offered, so that each conversion undoes its inverse; the angles lie in 0 to 2 pi; Kepler's equation is solved to the requested tolerance; right ascension and declination are those of the position; the partials with respect to the elements and the transition matrix (non-circular orbits) are the derivatives of exactly this motion. No result depends on earlier calls, on what memory held before, or on other tasks computing at the same time.",
 ["inputs", "histories", "schedules"], "every elliptic state or element set (inclined; partials: non-circular), any sequence of conversions and propagations, any content of the stack, any interleaving of tasks", "Not built by the tests; a swapped angle or a cosine rounded beyond one shows only for particular planes and phases.",
 ["src/astrodynamics/state2kepler.cpp", "src/astrodynamics/kepler.cpp", "src/astrodynamics/perifocal.cpp", "src/astrodynamics/propagate_state.cpp", "src/astrodynamics/state_partials.cpp", "src/astrodynamics/pos2ra.cpp"],
 [("conversion formulas", "src/astrodynamics/state2kepler.cpp"), ("transition matrix", "src/astrodynamics/propagate_state.cpp propagate_state()")], observe=["states", "elements", "anomalies", "partials", "status"])
prop("A03", "Earth rotation follows the loaded parameters and its transformations invert",
 "For an epoch within the loaded Earth orientation table the celestial-to-intermediate matrix, the rotation angle, the polar motion matrix and the length of day are those of the table at that epoch (interpolated and corrected as published); the matrices are proper rotations; epochs outside the table are refused, never extrapolated. Transforming a position or state from celestial to terrestrial applies exactly these rotations, transforming it back returns it, the transformed velocity is the time derivative of the transformed position, and repeated or concurrent requests give identical results.",
 ["inputs", "histories", "schedules", "fault_sequences"], "every table (any span and values), every epoch in, at the edges of and outside it, every state, any sequence and interleaving of requests over several tables, any content of fresh memory, tables loaded from a failing disk",
 "Not built by the tests (needs the IAU library); an error in one term, or an expression that outlives its operands, depends on the epoch, the compiler and the content of the stack.",
 ["src/itrs2gcrs.cpp", "src/orbit_integration.hpp", "src/iers/eop_interpolate.cpp", "src/iers/parse_c04.cpp"], [("rotation assembly", "src/itrs2gcrs.cpp gcrs2itrs()"), ("transformations of positions and states", "src/itrs2gcrs.cpp rcel2ter(), rter2cel(), ycel2ter(), yter2cel()")], observe=["matrices, rotation angle and length of day", "transformed positions and states", "status"])
prop("V01", "The equations of motion combine the forces of the epoch, or are undefined",
 "The derivative that is integrated equals, for any state and epoch, the velocity and the sum of the accelerations of gravity field, Sun, Moon and atmospheric drag for that epoch's Earth rotation, ephemeris, attitude and space weather (drag by the satellite's plates turned towards the flow, at the density of the Earth-fixed position), and the derivative of the transition and sensitivity matrices is the product with the partial derivatives of exactly this acceleration (the Sun's tidal gradient, some 1e-7 of the rest, may be left out). If any of the data needed is missing, damaged or cannot be read, the derivative is undefined (not a number): no arc is continued with stale, partial or default data. The result does not depend on earlier evaluations (apart from attitude being available only forward in time), on other satellites evaluated at the same time, or on rubbish memory, nor on the build's assertion setting. An arc integrated with it ends at the requested epoch in the state of an independent integration of the same accelerations.",
 ["inputs", "histories", "schedules", "fault_sequences"], "every gravity field, satellite, attitude history, Earth orientation and space-weather table, ephemeris availability, state and sequence of epochs (forward, repeated, back, around midnight and index boundaries, outside any table), read failures and missing kernels at any point, interleaved evaluations of several satellites",
 "The programs that use it need libraries and data that are not there; with one state and one epoch a missing rotation, a day's shift of the density or a stale value is within the noise of the drag model.",
 ["src/variational_equations.cpp", "src/orbit_integration.hpp", "src/astrodynamics/drag.cpp", "src/sunmoon.cpp", "src/itrs2gcrs.cpp", "src/gravity/gravity_acceleration.cpp", "src/gravity/point_mass_acceleration.cpp", "src/atmosphere/nrlmsise00_get_flux_data.cpp", "src/satellites/jason3_quaternions.cpp"],
 [("assembly of accelerations and partials", "src/variational_equations.cpp VariationalEquations()"), ("satellite and environment of an arc", "src/orbit_integration.hpp IntegrationParameters")], observe=["derivative of the state", "derivative of the transition and sensitivity matrices", "propagated state"])
prop("A04", "Drag, radiation pressure, eclipses and analytic density follow their models",
 "For every position and velocity, Sun and spacecraft: drag acceleration (in each variant, with or without a rotation to the true equator) and radiation pressure have the size and direction of their models, and the partials returned with them are their derivatives; the illuminated fraction lies in 0 to 1, is that of the overlapping discs of Sun and Earth (conical model), or of the cylinder, scaled cylinder or cones of the other models, with no undefined value in exact alignment, on the axis or at first and last contact; the exponential density is that of the published layer which contains the altitude. No result depends on earlier calls, on what memory held before, or on other tasks computing at the same time.",
 ["inputs", "histories", "schedules"], "every satellite state, Sun position (also exactly aligned, tangent, at the edges of the shadow), spacecraft, altitude above zero, any content of the stack, any interleaving of tasks", "Not built by the tests; contact and alignment, single layers and dangling expressions are not met by a sample.",
 ["src/astrodynamics/drag.cpp", "src/astrodynamics/solar_radiation.cpp", "src/astrodynamics/occultation.cpp", "src/atmosphere/exponential_atmospheric_model.cpp"],
 [("shadow models", "src/astrodynamics/occultation.cpp"), ("drag", "src/astrodynamics/drag.cpp drag_accel()"), ("layers", "src/atmosphere/exponential_atmospheric_model.cpp AtmTable")], observe=["accelerations and partials", "illuminated fraction", "density"])
prop("A05", "Corrections of an observation follow the published models",
 "For every ground antenna and frequency the phase correction is the linear interpolation of the published table at any zenith angle from 0 to 90 degrees inclusive, and every other angle is flagged and corrected by nothing; offsets and the ionosphere-free phase centre are those of the antenna type in the station's name; nominal beacon frequencies follow the shift factor; the ionosphere correction removes a delay that goes with the inverse square of the frequency; the relativistic clock rate is that of the gravitational potential (with or without oblateness) and speed. No result depends on earlier calls, on what memory held before, or on other tasks computing at the same time.",
 ["inputs", "histories", "schedules"], "every antenna type, frequency, angle (also 90 degrees, table nodes, outside, not a number), shift factor, pair of phases and state, any content of the stack, any interleaving of tasks", "A test program prints some values; the end of the table and expressions of destroyed temporaries depend on memory.",
 ["src/antenna_pcv.hpp", "src/doris_system_info.hpp", "src/doris_observation_equations.hpp", "src/relativity/relativistic_clock_correction.cpp"], [("table interpolation", "src/antenna_pcv.hpp pcv()"), ("phase centre", "src/doris_system_info.hpp BeaconStation::iono_free_phase_center()")], observe=["corrections and flag", "phase centre", "frequencies"])
prop("A06", "Analytic positions of Sun and Moon follow their published series",
 "For every epoch within some centuries of J2000, given as centuries, days or a date, each analytic position of the Sun (three variants) and the Moon (two) is that of its published series in kilometres in the equatorial system, exactly three numbers are written, and no result depends on earlier calls, on what memory held before, or on other tasks computing at the same time.",
 ["inputs", "histories", "schedules"], "every epoch (also before and exactly at J2000), any sequence and interleaving of requests", "A single coefficient of a series changes nothing that a print-out would show.",
 ["src/planets/sunpos.cpp", "src/planets/moonpos.cpp", "src/planetpos.hpp"], [("series of the Sun", "src/planets/sunpos.cpp"), ("series of the Moon", "src/planets/moonpos.cpp")], observe=["position"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
