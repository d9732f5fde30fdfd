"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def P(id, title, statement, over, text, tests, files, mech, note=None, na=None, state=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech,
                note=note, na=na, state=state)


PROPS = [
 P("C01", "QC flags are stored exactly, and unset flags read as unset",
   "A QC flag written to a report for a variable and test is the value read back until it is written again, and no other flag, observed value or climatology of the report changes with it. A flag never written reads as 9, and a flag outside 0-9 or for an unknown variable is refused. Normals and other values attached to a report for one variable never leak to another.",
   ["inputs", "histories"], "every report content, every variable and test name, every flag value, every sequence of set and get operations",
   "the tests set and read a few flags of one hand-made report; arbitrary histories and the frame condition (nothing else changes) are not sampled",
   ["Extended_IMMA.py"], [("QC flag store of a report", "Extended_IMMA.MarineReport.set_qc/get_qc"), ("normals", "setnorm/getnorm"), ("store of the observation layer", "Extended_IMMA.MarineReportQC")],
   "state"),
 P("C02", "Single-value checks give exactly the documented verdict",
   "Each check of a single observed value (hard limits, climatology with and without standard deviations, missing value, missing normal, supersaturation, SST freezing, wind consistency) returns 1 exactly when its documented failure condition holds and 0 otherwise, limits themselves passing. Missing inputs give the documented verdict instead of an error, and impossible limits are refused.",
   ["inputs", "configurations"], "every real observed value, climatology, spread and limit, present or missing, in every combination",
   "the tests use a handful of values per check; boundary values, missing-value combinations and parameter ranges are unbounded",
   ["qc.py"], [("limit, climatology and consistency checks", "qc.hard_limit, qc.climatology_check, qc.climatology_plus_stdev_check, qc.climatology_plus_stdev_with_lowbar, qc.value_check, qc.no_normal_check, qc.supersat_check, qc.sst_freeze_check, qc.wind_consistency")]),
 P("C03", "Position, time and date checks accept exactly the valid ones",
   "A report passes the position check exactly when latitude is in [-90, 90] and longitude in [-180, 360], the time check exactly when the hour is in [0, 24), and the date check exactly when the date exists in the Gregorian calendar and lies in 1850-2024. A missing day or hour fails the check; no combination of numbers makes these checks crash.",
   ["inputs"], "every latitude, longitude, hour, year, month and day, present or missing",
   "the tests try some dozens of positions and dates; leap centuries, months and days outside their ranges and their combinations are not covered",
   ["qc.py"], [("validity checks", "qc.position_check, qc.time_check, qc.date_check, qc.get_month_lengths")]),
 P("C04", "Calendar arithmetic agrees with the Gregorian calendar",
   "Month lengths, day-of-year numbers, 5-day periods (pentads), Julian days, previous days and months, seasons, month sequences and hour differences between two times agree with the Gregorian calendar for every date. Conversions that are inverses of each other compose to the identity, and time differences are antisymmetric and count the true elapsed hours.",
   ["inputs"], "every year, month, day and hour, and every pair of times or months",
   "tests sample a few dates per function; leap-year and year-boundary cases and inverse laws hold over unbounded ranges",
   ["qc.py"], [("calendar functions", "qc.get_month_lengths, qc.day_in_year, qc.dayinyear, qc.which_pentad, qc.pentad_to_month_day, qc.yesterday, qc.season, qc.last_month_was, qc.next_month_is, qc.year_month_gen, qc.jul_day, qc.time_difference")]),
 P("C05", "Grid-cell indexing is total and picks the cell containing the point",
   "For every valid latitude and longitude and each grid resolution in use the grid index returned lies inside the grid and its cell contains the point, points on a cell border going to the documented side. Converting an index to its cell centre and back returns the same index.",
   ["inputs"], "every real latitude and longitude in the documented ranges, every grid resolution used",
   "tests try about a hundred points; borders, poles and the date line are a measure-zero set that sampling misses",
   ["qc.py"], [("index functions", "qc.lat_to_yindex, qc.lon_to_xindex, qc.mds_lat_to_yindex, qc.mds_lon_to_xindex, qc.yindex_to_lat, qc.xindex_to_lon")]),
 P("C06", "Climatology lookups return the right cell or no value",
   "Looking up a gridded climatology at a valid place and date returns the value stored for the grid cell containing the place and the 5-day period, day or single field containing the date. A masked cell or a missing or impossible date gives no value, a report without a position gets no value, and no such lookup ever gives another cell's value, whichever way round the field is stored in its file.",
   ["inputs"], "every position, date and gridded field, masked or not",
   "tests read a few cells of constant or dummy fields (and several cannot run here), which cannot tell a wrong cell from the right one",
   ["qc.py", "Climatology.py"], [("lookups", "qc.get_sst, qc.get_sst_daily, qc.get_sst_single_field, qc.get_hires_sst, qc.get_clim, qc.get_hires_clim, Climatology.Climatology.get_value*, Climatology.Climatology.from_filename")]),
 P("C07", "Interpolated climatology stays within its neighbours and never fails",
   "Interpolating a gridded climatology to a position gives the bilinear value of the four surrounding grid points, between the smallest and largest of them, missing ones being filled only from present neighbours. It works for every position on the globe including poles and the date line, and yields no value only if the neighbourhood has none.",
   ["inputs"], "every position, every field of values and every pattern of missing neighbours",
   "tests cover a few corner configurations; poles, date line and all 16 missing patterns with arbitrary values are not",
   ["qc.py", "Climatology.py"], [("interpolation", "qc.get_clim_interpolated, qc.get_four_surrounding_points, qc.fill_missing_vals, qc.missing_mean, qc.bilinear_interp")]),
 P("C08", "Gross-error probabilities are probabilities and order observations",
   "For every valid prior, spread, quantisation and pair of limits the posterior probability of gross error lies between 0 and 1, is 0 for prior 0 and 1 for prior 1, and follows Bayes' rule for the documented good and gross distributions. Invalid arguments are refused.",
   ["inputs"], "every observed value, quantisation, limits, mean, spread and prior",
   "tests evaluate a few numeric examples; the bounds are universally quantified",
   ["qc.py"], [("Bayesian QC", "qc.p_data_given_good, qc.p_data_given_gross, qc.p_gross")]),
 P("C09", "Distances, courses and destination points obey spherical geometry",
   "Great-circle distances are never negative, symmetric, zero for equal points and at most half the Earth's circumference; courses and destination points lie in their documented ranges, and an intermediate point at fraction 0 or 1 is the corresponding end. No pair of valid positions makes them fail or return not-a-number.",
   ["inputs"], "every pair of positions on the globe, every course, distance and fraction",
   "tests check a few landmark distances; coincident, antipodal and polar points need universally quantified reasoning",
   ["spherical_geometry.py"], [("spherical geometry", "spherical_geometry.sphere_distance, angular_distance, intermediate_point, course_between_points, lat_lon_from_course_and_distance")]),
 P("C10", "The ship track check flags exactly the documented inconsistencies",
   "The modal-speed limits, direction, speed and position consistency components of the track check raise their contribution exactly when the documented inequality between reported and implied motion holds, missing ship information raising none. A report fails only when both its components and its position discrepancies demand it, every report gets a 0 or 1, and the first and last reports of a voyage always pass.",
   ["inputs", "histories"], "every sequence of positions, times, speeds and courses, present or missing",
   "tests use a few artificial voyages; the verdict logic has many thresholds, each of which must hold on both sides for every voyage",
   ["track_check.py"], [("track check", "track_check.modesp, set_speed_limits, increment_position, direction_continuity, speed_continuity, check_distance_from_estimate, mds_full_track_check")]),
 P("C11", "Speed and spike checks of ship and drifter tracks flag the right reports",
   "The speed-based track check flags a set of reports whose removal leaves no implied speed between compared neighbours above the platform's limit, never flags a track without such a speed, and terminates on every track. The spike check flags reports only where the value changes faster in space or time than its limits allow, and leaves no such change between compared neighbours. Every report gets a 0 or 1.",
   ["inputs", "histories"], "every track of reports in time order",
   "termination and the guarantee about what is left after flagging concern every track, tests run a few",
   ["Extended_IMMA.py"], [("IQUAM checks", "Extended_IMMA.Voyage.iquam_track_check, Extended_IMMA.Voyage.spike_check")]),
 P("C12", "Runs of repeated, rounded and saturated values are flagged exactly",
   "Within a voyage, reports with a value that is repeated, rounded or saturated are flagged exactly when the documented share and length of the run are exceeded, and every other report gets 0. Voyages shorter than the minimum get no failing flag and missing values neither count nor break the test.",
   ["inputs", "histories"], "every sequence of values, present or missing, every threshold",
   "tests use a few 50-report voyages; run boundaries and thresholds over arbitrary sequences are not covered",
   ["Extended_IMMA.py"], [("run checks", "Extended_IMMA.Voyage.find_repeated_values, find_multiple_rounded_values, find_saturated_runs")]),
 P("C13", "Drifting-buoy aground and speed checks flag whole, justified stretches",
   "The aground check flags exactly a final stretch of the drift during which the buoy did not move beyond tolerance for the documented period, and the speed checks flag exactly the reports inside windows whose implied speed exceeds the limit. Every report gets a 0 or 1, in time order, and invalid input is reported without partial flags.",
   ["inputs", "histories"], "every drifter track in time order, every parameter setting",
   "tests run some tens of synthetic tracks; window boundaries over arbitrary irregular times are not covered",
   ["trackqc.py"], [("tracking QC", "trackqc.aground_check, trackqc.new_aground_check, trackqc.speed_check, trackqc.new_speed_check")]),
 P("C14", "Drifting-buoy SST tail and bias/noise checks flag documented reports",
   "The SST tail check flags only a leading or trailing stretch of the night-time matchups of a drift and the bias/noise check only whole records, on the documented statistics against the background analysis. Records that are too short or lack background values are left unflagged, and invalid inputs raise no flags.",
   ["inputs", "histories"], "every record of SST, background, error and ice values in time order",
   "tests run synthetic records; statistics windows over arbitrary records are not covered",
   ["trackqc.py"], [("SST QC of drifters", "trackqc.sst_tail_check, trackqc.sst_biased_noisy_check")]),
 P("C15", "Buddy checks compare each report with its own neighbourhood only",
   "The buddy check of a report uses only grid boxes within the documented distance and time window around its own box, with the threshold of the row whose window and count apply, and flags it exactly when its anomaly differs from the buddies' mean by more than that threshold. A report without buddies passes, and every usable report gets a flag.",
   ["inputs", "histories"], "every set of reports, every neighbourhood configuration",
   "tests place a few reports by hand; neighbourhoods across poles, date line and year end and empty neighbourhoods are not covered",
   ["Extended_IMMA.py"], [("buddy check", "Extended_IMMA.Np_Super_Ob, Extended_IMMA.Deck.mds_buddy_check, Extended_IMMA.Deck.bayesian_buddy_check")]),
 P("C16", "Filtering and grouping lose, duplicate or reorder no report",
   "A filter passes a report exactly when every one of its tests holds for the report's flags; splitting a deck by a filter puts every report in exactly one part in its original order. Grouping by platform puts each report that passes the deck's filter in exactly one voyage, that of its identity, in the deck's order, whatever was added, removed or sorted before. Sorting a deck puts it in identity and then time order.",
   ["inputs", "histories"], "every deck of reports, every filter",
   "tests use decks of a few reports; no report lost or duplicated is a statement about every deck",
   ["Extended_IMMA.py"], [("filters and decks", "Extended_IMMA.QC_filter, Extended_IMMA.Deck")]),
 P("C17", "IMMA records decode to what they encode",
   "Decoding an IMMA record yields for each field of each attachment the value that the field's own characters denote in its units, and no value when they are blank; never characters of a neighbouring field or attachment. Characters that are no number give no value (SimpleIMMA) or reject the record (IMMA1). Values within the field's range survive writing and reading to within the field's resolution.",
   ["inputs"], "every character string of every field",
   "tests do not read records field by field; the field tables have hundreds of entries",
   ["IMMA1.py", "SimpleIMMA.py", "TestIMMA.py"], [("decoding", "IMMA1.IMMA, IMMA1.get*, IMMA1.decode_base36, SimpleIMMA, TestIMMA")]),
 P("C18", "Humidity conversions are consistent and physical",
   "The humidity variables derived from air temperature, dew point and pressure satisfy the documented formulas, a report's being computed from its own values: vapour pressure rises with dew point, saturation (dew point equal to temperature) gives 100% relative humidity and no dew-point depression, and specific humidity is below one kilogram per kilogram. Missing inputs give missing outputs.",
   ["inputs"], "every physically valid temperature, dew point and pressure, present or missing",
   "tests check a few tabulated numbers",
   ["CalcHums.py"], [("humidity", "CalcHums.vap, sh, rh, wb, dpd, td_from_vap")]),
 P("C19", "Month bookkeeping of platform records splits only at real gaps",
   "A platform's monthly record is split into chunks exactly where at least as many months in a row as the limit have no report, chunks are disjoint, in order, begin and end in months with reports, and cover every month with a report. Processing a given month is decided by that chunking alone.",
   ["inputs", "histories"], "every sequence of months with and without reports, every gap limit",
   "tests use a few short sequences; gap boundaries over arbitrary sequences are not covered",
   ["YMCounter.py"], [("chunks", "YMCounter.YMCounter")]),
 P("C20", "Reports keep their values and order by identity then time",
   "Reading a variable of a report returns the value in the record or last written, longitudes are presented in [-180, 180], and the report's time equals the one its year, month, day and hour denote, or is missing if any of them is. Reports compare by identity and then by time consistently, so sorting is well defined.",
   ["inputs", "histories"], "every report content and every pair of reports",
   "tests compare a few pairs; order laws quantify over all pairs and triples",
   ["Extended_IMMA.py"], [("reports", "Extended_IMMA.MarineReport")]),
 P("C21", "The day/night test follows the sun an hour before the report",
   "The day/night test says day exactly when the sun's elevation at the report's place one hour before its time is positive, including across midnight and new year. The sun position routine returns elevations and declinations within their physical range for every valid time and place.",
   ["inputs"], "every valid date, hour, latitude and longitude",
   "tests evaluate a few places and dates",
   ["qc.py"], [("sun", "qc.sunangle, qc.day_test")]),
 P("C22", "Base QC sets every documented flag from the report's own data",
   "Base QC of a report sets each documented flag to the verdict of its check on that report's own position, time, values and normals, whatever values are missing. No check is skipped, none is applied to another variable's value, and the report's data are left unchanged.",
   ["inputs", "configurations"], "every report content and parameter setting",
   "tests check single flags of single reports; the wiring of the checks is not tested as a whole",
   ["qc.py", "Extended_IMMA.py"], [("orchestration", "qc.base_qc_report, Extended_IMMA.MarineReportQC.do_*")]),
 P("C23", "Robust averages and statistics lie within their data",
   "The winsorised and trimmed means of a non-empty set of numbers equal their definition and lie between its smallest and largest value, whatever the order of the numbers. Angular differences lie between 0 and half a turn and are symmetric.",
   ["inputs"], "every list of numbers and trimming, every pair of angles",
   "tests use a few lists",
   ["qc.py", "trackqc.py"], [("statistics", "qc.winsorised_mean, qc.trimmed_mean, qc.angle_diff")]),
 P("C24", "Blacklists and generic identifiers match the published tables",
   "A report is blacklisted exactly when its deck, year, position, platform type or identifier falls in a published exclusion, borders included and longitudes east of 180 treated as their western equivalent. An identifier counts as generic exactly when it is in the list for that year.",
   ["inputs"], "every identifier, deck, date, position and platform type",
   "tests check a few regions; the tables combine years and regions with borders",
   ["qc.py"], [("tables", "qc.blacklist, qc.id_is_generic")]),
 P("C25", "Voyages stay in time order with consistent derived motion",
   "After any sequence of additions and sorting a voyage holds each report once in time order, and the speed, distance, course and time difference stored for each report are those between it and its predecessor, missing for the first (positions and dates being present). Estimates that use missing speeds or courses are missing, not wrong.",
   ["inputs", "histories"], "every sequence of additions and sorts, every report content",
   "tests add a few reports in order",
   ["Extended_IMMA.py"], [("voyage", "Extended_IMMA.Voyage")]),
 P("C26", "Output files hold each report of the month once, under the right headings",
   "Writing a deck or a voyage for a month produces one variables file and one file per group of QC flags, named after the month, the platform's safe identity and the run; each holds the headings and then exactly one line for every report of that month, in the order held, and for no other report (the tracking file: for every report). In each line every column holds the value, anomaly or flag that its heading names, missing values as \\N, unset flags as 9, the date in ISO form or zeros, and the pentad or 0.",
   ["inputs", "histories"], "every deck and voyage of any length, every report content, every month, the lists of variables and flags that the programs write",
   "no test writes a file; a column shifted by one, a report of another month or a skipped line would pass unnoticed",
   ["Extended_IMMA.py"], [("one line", "Extended_IMMA.MarineReport.print_variable_block/print_qc_block"), ("files", "Extended_IMMA.Deck/Voyage.write_output, write_qc, write_min_output, write_tracking_output")]),
 P("C27", "Input files and output directories are those of the date",
   "The name of an input file is its directory and file stub with the year in four digits and month and day in two put in the place of each placeholder, and nothing else changed; an ICOADS file is that of the release covering the year. Of several candidates the first that exists (for backgrounds: that holds something, packed or not) is used, a packed background being unpacked into the scratch directory unless that was done before; without a complete date or an existing candidate there is none. A month's output directory exists after it is asked for, and what was there is kept.",
   ["inputs", "configurations"], "every stub, date and state of the file system (lists of up to three candidates)",
   "tests use files that exist on one machine only and do not pass anywhere else; they never unpack a file",
   ["BackgroundField.py", "tracking_qc.py"], [("file names", "BackgroundField.process_string, make_filename, icoads_filename"), ("candidates", "BackgroundField.icoads_filename_from_stub, get_background_filename"), ("directories", "BackgroundField.safe_make_dir*, tracking_qc.safe_make_*_dir")]),
 P("C28", "A run takes in every usable report of a month and its neighbours, checks them and writes the month once",
   "For every month asked for, a QC run takes in, in file order, exactly the records of that month's file and those of the months before and after that can be read, whose identity is not on the exclusion list, and whose year and month are those of the file; a missing file or a record that cannot be read is passed over, leaves nothing behind in later records and never ends the run. Every report has its own climatological values before its base QC, is marked as in the month asked for by its date after base QC and, with tracking, carries the background of the day before its own date. The track checks see every ship made of reports of good position, date, time and not on the blacklist; the neighbour checks see, variable by variable, only reports that also passed the track check and that variable's own checks. Each month's output is written once, after its checks, in the directory and under the year and month it is of, and with tracking each drifter of the month that has an identity is written and listed. The exclusion list holds each identity as a record has it.",
   ["months", "files of records", "ships of a month", "flags of reports"], "every first year and month, files of any number of records each of any kind, any number of ships, every combination of flags (up to three months in one run; exclusion lists of up to two lines: bounded)",
   "no test runs a main: it needs decades of input files; the tests stop at the checks a run is made of",
   ["marine_qc.py", "marine_qc_hires.py", "marine_qc_track_only.py", "BackgroundField.py"],
   [("months and files read", "marine_qc.main, marine_qc_hires.main, marine_qc_track_only.main"), ("filters", "Extended_IMMA.QC_filter"), ("normals at hand", "Extended_IMMA.ClimatologyLibrary"), ("exclusion list", "BackgroundField.process_bad_id_file")]),
 P("C29", "Tracking QC runs each drifter's chunk once, on all its reports, each check seeing what the ones before left",
   "The tracking QC of an identity reads, for the months of its chunk in order, the files that the main run wrote for it (under the safe form of its identity), pairs each report with its own flags, and gives each check, in time order, exactly the reports it may see: buoys of good date, time and position that are not blacklisted; for the SST checks also good SST, a Bayesian buddy flag below 4, and not failed by an earlier tracking check. Every report is written once, with the outcome, in the directory of the chunk's last month and of each edge case it is of. A chunk is submitted exactly when the edge mode asked for covers it, with its own months, identity and case.",
   ["chunks", "files", "flags of reports"], "every combination of flags and outcomes, missing months, identities and edge modes (a few reports, months and identities: bounded)",
   "no test runs either main: they need the output of a full run; the tests stop at the checks themselves",
   ["tracking_qc.py", "Tracking_QC_wrapper.py", "YMCounter.py"],
   [("tracking QC", "tracking_qc.main, EasyImma"), ("chunks and jobs", "Tracking_QC_wrapper.main, write_submission")]),
]


def properties():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["tests"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))
            f.write(json.dumps(d) + "\n")


def manifest():
    checks, na = [], []
    for p in PROPS:
        if os.path.exists(os.path.join(HERE, "specs", p["id"] + ".py")):
            note = LEVEL.get(p["id"], "") + COMMON
            checks.append(dict(property=p["id"], quick_cmd="./check %s" % p["id"],
                               thorough_cmd="VERIF_TIER=thorough ./check %s" % p["id"],
                               technique="contract-based deductive verification (pre/postconditions and loop "
                                         "invariants on the real functions, symbolic execution to VCs, z3/cvc5)",
                               level="other" if p["id"] in BOUNDED else "proof", level_note=note.strip()))
        else:
            na.append(dict(property=p["id"], reason=NA.get(p["id"], "no check yet")))
    m = dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na,
             notes="Contracts in specs/, verifier in pyvc/, see DESIGN.md. Known findings: known_findings.json.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


COMMON = (" Contracts on the functions of /repo, all obligations discharged by z3/cvc5 on every run for all inputs of "
          "the stated domains; floats are reals, transcendental functions are axiomatised; contracts named bounded in "
          "the evidence hold up to the stated size only and are not counted as proved.")
BOUNDED = ("C29",)
LEVEL = {"C29": "Bounded: all but one of its contracts (EasyImma is proved) hold for a few reports, months and identities, all flags, outcomes and modes; "
                "DESIGN.md has the bounds."}
NA = {}

if __name__ == "__main__":
    sys.path.insert(0, os.path.join(HERE, "tools"))
    try:
        from levels import LEVEL, NA  # noqa
    except ImportError:
        pass
    properties()
    manifest()
