#!/usr/bin/env python3
"""Writes properties.jsonl (the single place where the property texts are edited)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                          observe_at=list(observe), hook_needed=hook))
    P.append(d)

SA = "rubin_sim/sim_archive/"
VM = SA + "vseqmetadata.py"
VA = SA + "vseqarchive.py"
SQL = "sql/make_vseqmeta.sql"
p("A01", "Recorded visit sequences read back exactly and keep their kind",
  "Every visit sequence recorded in the metadata archive (generic, simulated, completed or mixed) reads back with exactly the values given at recording time plus documented defaults, under a fresh identifier, from its own kind's table and from the common table, and never from another kind's table. Updating one field or the visits location of a sequence changes that field of that sequence only; an unknown identifier is refused and changes nothing. Recording a conda environment is idempotent per hash, and the software listed for a simulation is exactly the packages of the environment it was recorded with.",
  ["histories", "inputs"], "all histories of record / update / set-location / record-environment / read operations over any mix of sequence kinds, optional arguments and existing or unknown identifiers",
  "tests record one sequence of each kind and read back a few columns; interference between sequences and kinds over a history is never looked at",
  [VM, SQL], [("record_*_metadata, update_visitseq_metadata, set_visitseq_url", VM), ("table inheritance", SQL)],
  [("visitseq and children", "one row per sequence", SQL)], ["get_visitseq_metadata", "get_visitseq_url", "SQL rows of every archive table"])
p("A02", "Tags, comments and files attach to one sequence with set/log/map meaning",
  "A sequence's tags behave as a set, its comments as an append-only log with author, and its registered files as a map from file type to (hash, location) that is replaced only when an update is asked for; the visits themselves are never registered as an ordinary file. Operations that are refused (removing an absent tag, re-registering without update, registering type 'visits', reading an absent file) raise ValueError and change nothing, and no operation on one sequence changes another's annotations. The combined simulation view lists exactly each simulation's tags, comments and files.",
  ["histories"], "all histories of tag / untag / comment / register / lookup operations over several sequences, tags and file types",
  "tests exercise each call once on one sequence; repeated, interleaved and refused calls are barely sampled",
  [VM, SQL], [("tag, untag, comment, register_file", VM), ("simulations_extra view", SQL)],
  [("tags, comments, files", "annotation tables", SQL)], ["is_tagged, get_comments, get_file_url, get_file_sha256", "SQL rows"])
p("A03", "A failed archive operation leaves no partial sequence or annotation",
  "When recording, updating, annotating or storing statistics for a visit sequence fails because any one of its database statements is rejected or the connection is lost at that point, the caller gets an error and the archive content is exactly what it was before the call; when the call succeeds all of its effects are present. In particular a simulation, completed or mixed sequence never appears in the archive without the kind-specific values it was recorded with.",
  ["crash_points", "fault_sequences", "inputs"], "every database write of every recording/annotating operation as the point of failure, with statement rejection and with connection loss, on archives with any prior content",
  "tests never inject a failure between two statements",
  [VM], [("single transaction per operation, rollback on error", VM)],
  [("archive rows", "all tables", SQL)], ["SQL rows of every table read through an independent connection"])
p("A04", "Archive connections never leak, wedge or carry over failed work",
  "After any history of successful and refused archive operations, every connection the archive object took from its pool is returned and no transaction is left open or aborted, so that the object can always serve further operations. Read-only use (including user-supplied queries without commit) never changes the database.",
  ["histories", "fault_sequences"], "arbitrarily long histories of operations, mixing successes, refusals and database errors, with the pool's bound of five connections",
  "each test issues a handful of calls against a fresh object, fewer than the pool bound",
  [VM], [("query(): rollback and putconn in finally", VM), ("shared engine for pandas reads and writes", VM)],
  [("connection pool", "borrowed/idle connections", VM)], ["server-side session list (pg_stat_activity)", "subsequent operations succeed"])
p("A05", "An archived file's stored bytes always match what is registered for it",
  "After any history of file additions (successful or refused), for every registered file type of every sequence the object stored at the registered location has exactly the registered hash and the bytes last accepted for that type, and fetching it yields those bytes. A refused addition changes neither the database nor the stored files, and files of different sequences, or of different types of one sequence, never overwrite one another.",
  ["histories", "inputs"], "histories of file additions with same/different names, types, contents, sequences and update flags",
  "tests add one file of each type",
  [VA, VM], [("add_file, register_file", VA)], [("archive directory tree", "stored objects", VA)], ["stored bytes", "files table", "get_file"])
p("A06", "Selecting archived simulations by night, tags, telescope and age is exact",
  "A query for the simulations covering a range of nights returns exactly those whose night range includes both ends of the requested range, that carry all the requested tags (any tags when none are requested), were made for the requested telescope and are no older than the requested age; the single-night variant also attaches exactly that night's statistics. The date plus daily number of a simulation identifies it uniquely, numbers simulations of one creation night 1,2,3... in creation order, and looks up to that simulation or is refused. A night may be given as an integer, a date or an ISO string with the same result, and an instant belongs to the night of its UTC-12h date.",
  ["inputs", "histories"], "all archive contents and all queries over night ranges, tag subsets (including none), telescopes, ages and date formats",
  "tests query one archive with one or two sims and always with tags",
  [VM, SQL, SA + "util.py"], [("sims_on_nights, sims_on_night_with_stats, get_sim_uuid, simulations_extra, dayobs_to_date", VM)], [], ["returned rows"])
p("A07", "Nightly statistics are computed per night and stored without loss",
  "The nightly statistics of a table of visits have, for each night and each requested column, exactly one row whose count and quantiles summarise exactly the visits of that night, where a visit's night is its given night or otherwise the UTC-12h date (day of observation) of its start time. Stored statistics read back unchanged for the sequence they were stored for and for no other, and a duplicate store is refused leaving the stored statistics as they were.",
  ["inputs", "histories"], "all small visit tables over nights, columns and value multisets, and all histories of store/query over several sequences",
  "tests store one table for one sequence",
  [VA, VM], [("compute_nightly_stats, insert_nightly_stats, query_nightly_stats", VA)], [], ["returned tables", "nightly_stats rows"])
p("A08", "Pre-night simulation lists agree between database and file index",
  "For any archive content (of the last year), night and telescope, the pre-night simulation list obtained from an up-to-date file index equals the one obtained from the database: exactly the simulations tagged 'prenight' for that telescope whose range covers the night, with their tags, files, comments and (in the index) that night's statistics. A simulation is found by its creation night and daily number, or by identifier, through either list, or is refused. Selecting the latest simulation by required tags and age returns the most recently created one of the list that satisfies them, or none.",
  ["inputs", "histories"], "archive contents and queries over nights, tags, telescopes and ages",
  "tests compare one archive with one simulation",
  [SA + "prenightindex.py"], [("get_prenight_index, select_latest_prenight_sim", SA + "prenightindex.py")], [], ["returned tables", "index files"])
p("A09", "Exporting a simulation's metadata and importing it elsewhere preserves it",
  "Importing the exported metadata of an archived simulation into another archive yields a simulation with the same label, telescope, scheduler version, night range, creation time, tags and registered files (with the hash of the referenced content) and the same visits, and exporting that again gives the same description apart from the identifier. Importing a description without a label or observations file is refused and adds nothing.",
  ["inputs", "histories"], "all combinations of present and absent optional metadata, tags and files",
  "no test imports an export; the prototype import is tested with one simulation",
  [VM], [("sim_metadata_yaml, import_sim_from_yaml", VM)], [], ["archive rows after import", "yaml text"])
p("A10", "The prototype archive numbers simulations uniquely and lists all of them",
  "Simulations added to the file-based archive for one date get consecutive numbers without ever overwriting an existing entry, and each entry holds the files, hashes, labels, tags and dates it was made with. The compiled listing contains exactly the entries present, a listing fetched from cache equals a fresh one, and the latest pre-night simulations for a night range are the most recently executed ones (by date, then number) that carry the required tags and cover the range.",
  ["histories", "inputs"], "histories of additions over dates, labels, tags and of listing calls with and without cache",
  "tests add one or two simulations and read them once",
  [SA + "sim_archive.py", SA + "prototype.py"], [("transfer_archive_dir, compile_sim_metadata, read_sim_metadata_from_archive, find_latest_prenight_sim_for_nights", SA + "sim_archive.py")], [], ["archive tree", "returned metadata"])
p("A11", "Visits come back from the archive unchanged, filtered and augmented as asked",
  "Converting a table of visits between the simulator database and the archive format and back preserves every table, row, column and value, and reading archived visits returns exactly the rows matching the requested condition, in order, with exactly the requested derived columns added. Fetching the visits of a range of nights from a simulation (a file of either format, or the latest suitable archived simulation) returns each of its visits on those nights once and no others, the number of visits reported for a night is the number it has, and no argument of the caller is ever modified.",
  ["inputs"], "all small tables of visits, conditions and derived-column requests",
  "tests check one sample table with no condition",
  [VA, SA + "util.py", SA + "sim_archive.py"], [("opsimdb_to_hdf5, hdf5_to_opsimdb, get_visits, fetch_sim_for_nights, fetch_sim_stats_for_night", SA + "util.py")], [], ["returned tables"])

RD = "rubin_sim/maf/db/results_db.py"
p("A12", "A simulation that was run is kept completely and alone",
  "Running a simulation with drive_sim or the pre-night command line tool, or saving one with make_sim_data_dir, leaves a directory that still exists afterwards and holds exactly that run: each of its visits once, every reward table it made, the scheduler as it was before the run, each given file with its own content (also when names coincide) and true hash, and its own tags, label, metadata, settings and first and last night (never last before first). Nothing else changes: no other directory, nothing of an earlier run in the same directory remains in it, and no argument of the caller is modified. A pre-night run covers the nights asked for, from dusk (plus delay) to the last sunrise. Random overheads never make an overhead smaller than the minimum or a slew negative, are in proportion to the slew, are plain numbers, and repeat exactly for the same seed.",
  ["histories", "inputs"], "histories of runs sharing directories, metadata dictionaries and file names, with every mode of saving",
  "tests save one simulation in one new directory and do not run drive_sim or the command line tool",
  [SA + "sim_archive.py", SA + "prenight.py"], [("make_sim_data_dir, drive_sim", SA + "sim_archive.py"), ("run_prenight_sim_cli, compute_sim_start_and_end, AnomalousOverheadFunc", SA + "prenight.py")], [], ["simulation directory", "returned values"])
p("B01", "A metric recorded in the results database keeps one identity",
  "Each distinct combination of metric name, slicer, run, constraint and metadata has exactly one identifier in the results database however often and in whatever order its metric, display, plot and summary records are added, and different combinations never share one. Records added for a known metric refer to exactly that metric: each metric has at most one display record, holding the last values given unless overwriting was declined, plots of one kind accumulate unless overwriting was asked for, summaries accumulate, and a metric keeps the first data file given for it. Reopening the database shows the same content. An addition that is interrupted at any point has happened or has not (of a set of summaries, some may have been added), and summaries recorded while another process keeps the database locked are tried again as documented: they are recorded, or the failure is reported.",
  ["histories"], "all histories of adding metrics, displays, plots and summaries, repeated and interleaved, with reopening, interruption at every statement, and a locked database",
  "tests add a couple of metrics once each",
  [RD], [("ResultsDb.update_metric/update_display/update_plot/update_summary_stat", RD)], [("metrics, displays, plots, summarystats", "sqlite tables", RD)], ["sqlite rows", "get_* results"])
p("B02", "Results database queries return exactly the matching records",
  "Looking up metric identifiers, display information, plots, data files or summary values by any combination of names, slicer, constraint, run and display group or subgroup returns exactly the recorded rows that match, each once and with the recorded values, including non-finite and array-valued summaries that are stored per entry or left out as documented. Asking for something that was never recorded returns an empty result or raises the documented error and changes nothing.",
  ["histories", "inputs"], "all small database contents and all query argument combinations",
  "tests query a database of two or three metrics",
  [RD], [("get_metric_id, get_summary_stats, get_plot_files, get_metric_datafiles, get_metric_display_info", RD)], [], ["returned arrays"])
p("B03", "Upgrading a results database keeps every record",
  "Opening or upgrading a results database written with the old schema keeps every metric, display, plot and summary record and makes it usable, downgrading an upgraded database keeps all common information and allows it to be upgraded again, and a database already up to date is left unchanged. Rows never change identity or order of association across a migration. A migration that is interrupted at any point loses nothing and is completed when the database is next opened.",
  ["histories", "inputs"], "all small contents and all sequences of upgrade, downgrade, open and add operations",
  "no test migrates a populated database",
  [RD], [("ResultsDb version check and migration", RD)], [], ["sqlite schema and rows"])
TD = "rubin_sim/maf/db/tracking_db.py"
p("B04", "The run-tracking database lists each analysis directory exactly once",
  "Adding an analysis run that is not yet tracked gives it an unused identifier, adding one whose directory is already tracked updates its record without creating a second one (keeping its identifier even if another is requested, and an addition the database refuses leaves the previous record in place), and a run may be given a free identifier explicitly but never one that belongs to another directory. A directory is the same however its path is written and wherever the database is. Deleting removes exactly that run and is refused for an unknown identifier, and all other runs keep their records unchanged through any such history.",
  ["histories"], "all histories of add / re-add / add-with-identifier / delete over several directories",
  "tests add two runs and re-add one",
  [TD], [("TrackingDb.add_run, delete_run", TD)], [("runs", "sqlite table", TD)], ["sqlite rows"])
GS = "rubin_sim/maf/run_comparison/gather_summaries.py"
p("B05", "Summaries gathered over many runs keep every run and every value",
  "Gathering the summary values of a set of runs yields one row per run and one column per summary, each cell holding the last value (other than a missing one) recorded for that run and summary in the order the runs were given, and nothing else, whatever the number and order of runs and whichever summaries each run lacks. A run without results is skipped without disturbing the others, and nothing is created or modified in the run directories. Selecting runs, families of runs, metrics and metric subsets from a gathered summary returns exactly those cells in the requested order, skipping metrics the summary lacks, and leaves the summary as it was.",
  ["inputs", "configurations"], "all small sets of runs with arbitrary, partly missing or repeated summaries",
  "tests gather two prepared runs with the same summaries",
  [GS, "rubin_sim/maf/run_comparison/archive.py"], [("gather_summaries / get_metric_summaries", GS)], [], ["returned frames", "directory contents"])

p("B06", "Normalized summaries compare every run with the baseline",
  "Normalizing a table of run summaries to a baseline (one run, or the median of several) gives for every run and metric value/baseline, baseline/value for inverted metrics, 1 + (value - baseline) for magnitudes and 1 + (baseline - value) for inverted magnitudes, with exactly the given runs and the known metrics in their original order, whichever way the table is oriented and in whatever order metrics are described. The normalization for radar plots does the same with its own lists of inverted, reversed and magnitude columns, and the caller's table stays as it was.",
  ["inputs"], "all small tables, baselines and assignments of metric kinds",
  "tests normalize one fixed table",
  ["rubin_sim/maf/run_comparison/summary_plots.py", "rubin_sim/maf/run_comparison/radar_plot.py"], [("normalize_metric_summaries, normalize_for_radar", "rubin_sim/maf/run_comparison/summary_plots.py")], [], ["returned frames"])

MR = "rubin_sim/maf/web/maf_run_results.py"
p("B07", "Result pages show every recorded result exactly once, in its place",
  "The object behind the result pages returns, for any group, subgroup, plot type, statistic, slicer, label, name or selection, exactly the recorded metrics that match, each once and in display order, with exactly their own plots (ordered by type) and statistics (ordered by name as documented); sky maps are laid out by band with gaps kept, in rows of three. The served pages show exactly that: the selection page every metric and group, the results page exactly the selected ones with their pictures, captions and statistics, the tables every statistic of every metric in its cell, the sky map page every sky map, and the data links deliver the metric's own data. The list of runs shows every tracked run with its own information, and each run's pages its own results.",
  ["inputs", "histories"], "all small databases of metrics, displays, plots and statistics, and all selections of them",
  "tests construct the object once and never look at a page",
  [MR, "rubin_sim/maf/web/maf_tracking.py", "rubin_sim/maf/show_maf.py", "rubin_sim/maf/web/templates"], [("MafRunResults", MR), ("MafTracking", "rubin_sim/maf/web/maf_tracking.py"), ("handlers", "rubin_sim/maf/show_maf.py")], [], ["returned arrays and dictionaries", "served HTML"])

MG = "rubin_sim/maf/metric_bundles/metric_bundle_group.py"
MB = "rubin_sim/maf/metric_bundles/metric_bundle.py"
p("M01", "A metric's values do not depend on what else is run in the same group",
  "Running a group of metric bundles gives every bundle exactly the metric values, mask and summaries it gets when run alone on the same visits, whatever the other bundles' metrics, slicers, constraints, stackers and maps and whatever their order. The values at each slice point are the metric applied to exactly the visits selected by the bundle's constraint that belong to that slice point, masked exactly where there are none. (Metrics are functions of the set of visits; slicers and maps describe themselves by their documented settings.)",
  ["configurations", "inputs"], "all groupings and orderings of bundles over shared and differing metrics, slicers, constraints, stackers and maps",
  "tests run one or two bundles per group and do not compare with isolated runs",
  [MG, MB, "rubin_sim/maf/slicers"], [("grouping of compatible bundles, shared slicing", MG)], [("sim_data, metric_values", "shared visit array and per-bundle results", MG)], ["metric_values", "summary_values"])
p("M02", "Reusing cached metric results never changes a result",
  "For metrics which depend on the visits alone, slice points that see the same visits may share a computed value, but the values produced with caching enabled, with any cache size, are identical to those computed without caching, for every order of slice points and every pattern of shared or overlapping visits. Cached values never pass between different metrics, constraints or runs.",
  ["inputs", "schedules", "configurations"], "all patterns of visits per slice point, slice point orders and cache sizes",
  "no test compares cached with uncached results",
  [MG, "rubin_sim/maf/slicers/healpix_slicer.py"], [("use_cache / cache_size in the slicer and group", MG)], [("memo", "recent slice -> value", MG)], ["metric_values"])
SL = "rubin_sim/maf/slicers/"
p("M03", "Slicers put every visit in exactly the slices it belongs to",
  "A one- or multi-dimensional binning slicer assigns each visit with values inside its range to exactly one slice, the one whose half-open bin contains it (the last bin of a movie or of a multi-dimensional axis also takes values beyond it; a value exactly at a one-dimensional slicer's last edge may belong to its last slice or to none), and visits outside to none; a fixed-interval time slicer assigns each visit to the interval that contains it; a per-visit slicer returns one visit per slice, in time order, with that visit's own time, duration and extra columns; a block slicer the visits of one block; a movie slicer exactly the visits of that frame (all earlier ones when cumulative); a spatial slicer exactly the visits within its radius of the slice point (a subset slicer only for its pixels); the single-slice slicer returns all visits. Slices hold original visit indices without repetition, do not depend on visit order, and depend only on the last set of visits given.",
  ["inputs"], "all small multisets of visit values against all small bin definitions",
  "tests use random data with a few bin layouts and check counts",
  [SL + "one_d_slicer.py", SL + "nd_slicer.py", SL + "time_interval_slicers.py", SL + "movie_slicer.py", SL + "uni_slicer.py"], [("setup_slicer / _slice_sim_data", SL)], [], ["slicer[i] idxs and slice_point"])
p("M04", "Saved metric results reload identically",
  "Writing a metric bundle and reading it back restores the metric name, values, mask, data type (numeric, string or object), fill value, constraint, run name, info label, display and the slicer with the same kind, slice points and settings, so that the restored slicer equals the original and differs from slicers with other settings. Re-writing what was read gives the same content, and a group made from a list of bundles is refused when two of them would write to the same file.",
  ["inputs", "configurations"], "all small metric value arrays (types, masks, special values) and all slicer kinds and settings",
  "tests write a few fixed arrays with some slicers and never compare settings",
  [MB, SL + "base_slicer.py"], [("write_data / read_data / slicer_init", SL + "base_slicer.py")], [], ["restored bundle and slicer"])
p("M05", "Reduced, summary and bookkeeping results follow from the metric values",
  "For every metric with reduce functions each reduced bundle holds, per unmasked slice point, exactly the reduce function's value of that point's metric value and is masked exactly where the original is; every summary metric reports exactly its value over the unmasked data and is recorded in the results database under the bundle's identity. A bundle is marked complete exactly when its values exist, running a group leaves the visits it is given unchanged, and reading all saved results of a group restores what running it gave.",
  ["configurations", "inputs"], "all small groups with reduce functions, summaries, masks and empty visit sets",
  "tests run single groups with one reduce function",
  [MG, MB], [("reduce_all, summary_all, write_all, read_all", MG)], [], ["bundle_dict, summary_values, results db rows"])
p("M06", "Required columns are resolved, added once and computed in dependency order",
  "A bundle asks the visit database for exactly the columns that its metric, slicer and stackers need and that no stacker supplies, adds default stackers exactly for the derived columns nobody supplied, and applies stackers so that each finds its inputs present. Running a stacker adds exactly its declared columns (plus those of stackers it is documented to run), keeps the number, order and existing values of visits (except a coadd stacker, which merges visits), does not recompute columns already present unless told to (some stackers always recompute their own), gives each visit values that depend on that visit alone (except overheads, coadds and random visibility), gives the same values when its input columns are named differently, and does so identically when repeated.",
  ["configurations", "inputs"], "all small combinations of metrics, slicers and explicitly given stackers with dependencies among them",
  "tests check a few bundles' column lists",
  [MB, MG, "rubin_sim/maf/stackers/base_stacker.py", "rubin_sim/maf/stackers/get_col_info.py"], [("stacker lookup and ordering, BaseStacker.run", MB)], [], ["db_cols, stacker_list", "stacked arrays"])
p("M08", "Exported metric values are the unmasked values of each slice point",
  "The JSON export of a metric bundle, and of a metric shown in a run of results, lists, in the order of the slice points, exactly the unmasked values at their positions (for one-dimensional slicers every bin's left edge with its value, masked bins as zero, closed by the last edge), with the bundle's names and its given or default labels, for float and integer values. Values of other types give no export, and exporting leaves the values unchanged.",
  ["inputs", "configurations"], "all small value arrays and masks over binned, spatial and single slicers",
  "one test exports one array",
  [SL + "base_slicer.py", MB, "rubin_sim/maf/web/maf_run_results.py"], [("output_json", SL + "base_slicer.py"), ("get_json", "rubin_sim/maf/web/maf_run_results.py")], [], ["JSON text"])
MM = "rubin_sim/maf/metric_bundles/mo_metric_bundle.py"
p("M07", "Moving-object bundle groups give the same results as bundles run alone",
  "Running a group of moving-object metric bundles gives each bundle, for every object and absolute magnitude, exactly the value it gets when run alone: the metric (and its child metrics, which have no value where their parent has none) applied to exactly the object's observations that satisfy the bundle's own constraint, with its own stackers only, and masked where there are none. The result does not depend on the order or the number of bundles in the group or on how objects are named. Each bundle's and child's values are written to the file that the results database names for it, and its summary statistics are those of its own values.",
  ["configurations", "inputs"], "all small sets of objects, observations and groupings of bundles over constraints, stackers and child metrics",
  "tests never run a moving-object bundle group with mixed bundles",
  [MM, "rubin_sim/maf/slicers/mo_slicer.py", "rubin_sim/maf/stackers/mo_stackers.py"], [("MoMetricBundleGroup, MoMetricBundle", MM), ("MoObjSlicer", "rubin_sim/maf/slicers/mo_slicer.py"), ("MoMagStacker", "rubin_sim/maf/stackers/mo_stackers.py")], [], ["metric_values", "summary_values", "output files"])
p("M09", "Population summaries of moving objects count every object once at its magnitude",
  "Completeness at a magnitude is the fraction of the whole population whose value meets the threshold (objects without a value do not, but count in the population), for cloned magnitudes and for populations in which each object has its own (every object then falls in exactly one bin); cumulative completeness is its mean up to that magnitude weighted by the size distribution of the requested index; completeness over time counts the objects discovered since the first and before each of the given times; values at a given magnitude are interpolated between the neighbouring ones and missing outside the range; total numbers are the sum of completeness times the expected population. The values given are not modified.",
  ["inputs"], "all small tables of objects by magnitudes with missing values, over thresholds, indices and bins",
  "tests check one completeness table with default parameters",
  ["rubin_sim/maf/metrics/mo_summary_metrics.py", MM], [("MoCompletenessMetric, MoCompletenessAtTimeMetric, ValueAtHMetric, MeanValueAtHMetric, TotalNumberSSO, integrate_over_h, power_law_dndh", "rubin_sim/maf/metrics/mo_summary_metrics.py"), ("make_completeness_bundle", MM)], [], ["summary values"])

MET = "rubin_sim/maf/metrics/"
p("T01", "Same-night visit pairs and visit groups are counted exactly",
  "Pair-counting and visit-group metrics count, for any set of visits in any order, exactly the pairs, runs of nights and groups their window definitions describe (each visit used as defined, window ends as documented), and all derived quantities (medians, fractions, numbers of nights, lunations and longest streaks) are computed from those groups and nothing else.",
  ["inputs"], "all small visit histories over nights, times, filters and window limits",
  "tests use one or two hand-made histories per metric",
  [MET + "visit_groups_metric.py", MET + "cadence_metrics.py", MET + "simple_metrics.py"], [("VisitGroupsMetric, PairMetric, PairFraction", MET)], [], ["metric.run results"])
p("T02", "Instrument state changes are counted from the visit sequence alone",
  "The metrics describing changes of filter or other state over a sequence of visits report exactly the number, rate, extreme intervals and windows of changes between successive visits in time order (night breaks treated as documented), independent of the order in which the visits are supplied.",
  ["inputs"], "all small visit histories over times, nights and states",
  "tests use one hand-made sequence per metric",
  [MET + "technical_metrics.py"], [("NChangesMetric, MinTimeBetweenStatesMetric, NStateChangesFasterThanMetric, MaxStateChangesWithinMetric", MET)], [], ["metric.run results"])
p("T03", "Gap and revisit statistics cover exactly the intended visit pairs",
  "Time-gap metrics (between all, successive, same-night or next-night visits, and rapid revisits) summarise exactly the gaps their definition selects from the set of visits, each once, in the requested unit, binned in the bin that contains the gap, and return no value exactly when no such gap exists; the result does not depend on the order of the visits given.",
  ["inputs"], "all small visit histories over times, nights and bin layouts",
  "tests use a few hand-made histories",
  [MET + "tgaps.py", MET + "simple_metrics.py", MET + "cadence_metrics.py"], [("TgapsMetric, NightgapsMetric, IntraNightGapsMetric, InterNightGapsMetric, VisitGapMetric", MET)], [], ["metric.run results"])
p("T04", "Template availability counts only visits made after a usable template",
  "For the visits of one filter at one place, a template exists from the visit that completes the required number of visits whose seeing and depth both reach the benchmark (the better-for-the-user of the scaled threshold and the percentile of the visits themselves); only visits of later nights count as having a template. The template's depth and seeing, the numbers of visits before and after, the depth and alerts of every later difference image and their total follow exactly from the visits used, there is no value when too few qualify, and the fraction of visits with an earlier image of at least their quality counts exactly those; all for any order of visits.",
  ["inputs"], "all small visit histories over nights, filters and image qualities",
  "tests use one hand-made history per metric",
  [MET + "cadence_metrics.py", MET + "schedview_metrics.py", MET + "technical_metrics.py"], [("TemplateExistsMetric, TemplateTime", MET)], [], ["metric.run results"])
p("T05", "A moving object is discovered exactly when its observations satisfy the rules",
  "A moving object counts as discovered once for each qualifying window: enough observations on a night within the tracklet time limits, on enough nights, within the track length, above the brightness cut; and the discovery time, number of chances, position, number of observations and other derived values are those of the window concerned. The verdict is independent of the order of observations and monotone: extra detectable observations never remove the first discovery opportunity.",
  ["inputs"], "all small observation histories over nights, in-night times and detectability, and all small rule parameters",
  "tests use one random object history",
  [MET + "mo_metrics.py"], [("DiscoveryMetric and children, MagicDiscoveryMetric, HighVelocityMetric", MET + "mo_metrics.py")], [], ["metric.run results"])
p("T06", "Seasons split a target's visits consistently in every seasonal metric",
  "Every visit belongs to exactly one observing season, seasons increase with time and change only when the target passes the Sun, and season lengths, campaign lengths and in-season cadences are computed from exactly the sufficiently long or deep visits of each season (a season seen on one night only has no length and no separation between nights: both count as zero), for any set and order of visits. The time delay precision, accuracy and rate follow from those by their published formulas.",
  ["inputs"], "all small visit histories over several years and target positions",
  "tests use one or two hand-made histories",
  [MET + "season_metrics.py"], [("calc_season, SeasonLengthMetric, CampaignLengthMetric, MeanCampaignFrequencyMetric", MET + "season_metrics.py")], [], ["metric.run results"])
p("T07", "Accumulated and histogram metrics put each visit in the bin that holds it",
  "Vector metrics that accumulate or histogram a quantity over time bins give, for every bin, exactly the statistic of the visits inside the bin (histograms) or up to and at the end of the bin, also those before the first bin (accumulations), leaving bins without defining visits at the documented fill value, for any bins and any order of visits.",
  ["inputs"], "all small visit histories against all small bin layouts",
  "tests compare totals for a few layouts",
  [MET + "vector_metrics.py"], [("HistogramMetric, HistogramM5Metric, AccumulateMetric, AccumulateCountMetric, AccumulateM5Metric, AccumulateUniformityMetric", MET + "vector_metrics.py")], [], ["metric.run results"])
p("T08", "Basic metrics are exact functions of the multiset of visits",
  "Each elementary summarising metric (counts, unique counts and ratios, extremes, quantiles, range, sums, coadded depth, identity and fraction thresholds) returns, for any non-empty multiset of visit values, exactly the value of its definition, returns the documented fill value when there is nothing to summarise, and does not depend on the order of visits or modify them.",
  ["inputs"], "all small multisets of visit values, with ties and boundary values",
  "tests check each on one random array",
  [MET + "simple_metrics.py", MET + "string_count_metric.py", MET + "summary_metrics.py", MET + "technical_metrics.py"], [("run methods", MET + "simple_metrics.py")], [], ["metric.run results"])
p("T09", "Stackers give each visit its own derived columns and touch nothing else",
  "A stacker returns the same visits in the same order with exactly its columns added (and the helper columns it is documented to compute), all other columns and the table it was given unchanged; columns that are already present are kept as they are unless asked to override. Each visit's derived value is the one of its definition (hour angle, zenith distance, normalised airmass, day of observation as the date 12 hours before UTC, effective exposure time, refraction amplitudes, overhead since the previous visit in time, survey labels, field and healpix ids) and depends only on that visit (overhead: and the one before it in time), whatever the order and company of the visits; the declared units are those of the values. Coadding gives one visit per field, band and night, with the total exposure, combined depth and median conditions of exactly those visits.",
  ["inputs"], "all small tables of visits in any order, and all chains of stackers over them",
  "tests run each stacker on one table",
  ["rubin_sim/maf/stackers/"], [("BaseStacker.run", "rubin_sim/maf/stackers/base_stacker.py"), ("HourAngleStacker, OverheadStacker, DcrStacker, FiveSigmaStacker", "rubin_sim/maf/stackers/general_stackers.py"), ("DayObsStacker", "rubin_sim/maf/stackers/date_stackers.py"), ("TeffStacker", "rubin_sim/maf/stackers/teff_stacker.py")], [], ["stacker.run results"])

MO = "rubin_sim/moving_objects/"
p("C01", "Fitted ephemeris segments cover the requested span once and meet tolerance",
  "Fitting an orbit over a time span yields segments that are ordered, contiguous, non-overlapping and cover exactly the requested span, each of a length that divides the day grid evenly and no longer than the starting one, and every kept segment met the position tolerance; where none can be found the span is recorded as failed rather than silently dropped. Every object of the set is either fitted or reported as failed, the residuals recorded for a segment are the largest differences over it, and an error of the ephemeris generator is raised.",
  ["inputs", "fault_sequences"], "all patterns of where the fit meets or misses tolerance along the span, for several span lengths and starting segment lengths",
  "tests fit a few real orbits (ephemeris generator required) and check residual size",
  [MO + "cheby_fits.py"], [("ChebyFits: segment length selection, recursion, failure list", MO + "cheby_fits.py")], [], ["coeffs", "failed"])
p("C02", "Ephemerides are evaluated from the right object's right segment",
  "Looking up positions for any set of objects and times uses, for each object and time, exactly the segment that contains the time; a time outside an object's coverage gives missing values for that object and time only, every result row belongs to the object it is listed under, and the caller's arguments are unchanged.",
  ["inputs"], "all small sets of objects with full, partial or adjoining coverage, and all query times including segment boundaries",
  "tests look up objects with complete coverage",
  [MO + "cheby_values.py"], [("ChebyValues.get_ephemerides", MO + "cheby_values.py")], [], ["returned dict"])
p("C03", "Orbit tables are validated, completed and compared without losing objects",
  "A table of orbits is accepted only if it has all elements of its format and physically possible values, otherwise it is refused with an error; accepted tables keep every object and element, get missing identifiers, magnitudes and colours filled in as documented, iterate and select to the same rows, and two orbit sets are equal exactly when all of their elements are. The caller's table is not altered.",
  ["inputs"], "all small orbit tables with missing, extra, reordered or out-of-range elements in each format",
  "tests check a handful of malformed tables",
  [MO + "orbits.py"], [("Orbits.set_orbits, __eq__, __getitem__, __iter__", MO + "orbits.py")], [], ["orbits frame"])
p("C04", "Orbits and ephemerides pass through the integrator's interface unchanged",
  "Whatever sequence of setting, converting, propagating and reading orbits and generating ephemerides is carried out, the integrator is given exactly the objects of the set in their order, each with its own elements in the integrator's units and layout, the requested times with their time scale, observatory and dynamical model; elements and ephemerides come back under their documented names for the right object and time, grouped as asked. An error reported by the integrator, an unknown mode, type or time scale, no times or no orbits are errors, and a failed operation leaves the orbits as they were.",
  ["inputs", "fault_sequences"], "all short histories of operations with errors at any of them, for all orbit formats",
  "tests need the integrator and compare a few real orbits",
  [MO + "ooephemerides.py"], [("PyOrbEphemerides", MO + "ooephemerides.py")], [], ["oorb_elem", "returned arrays"])
p("C05", "A moving object is seen in exactly the visits whose field of view contains it",
  "Generating observations gives, for any set of objects and visits in any order, exactly one row for every object and visit where the object's position at the time of the visit (in the exact ephemeris mode) lies in the chosen field of view (circle, rectangle or camera, in degrees or radians, across RA 0 as well), whether the first cut uses a coarse grid of ephemerides or positions computed before, as long as the tolerance allows for the motion. Each row holds that object's identifier and position, that visit's own columns, the colour of its spectrum in the visit's band and the documented trailing losses. The visits, orbits and positions given are unchanged.",
  ["inputs"], "all small sets of objects and visits, fields of view, grids and tolerances",
  "no test covers the generation of observations",
  [MO + "direct_obs.py", MO + "base_obs.py"], [("DirectObs.run", MO + "direct_obs.py"), ("BaseObs.sso_in_fov, calc_trailing_losses", MO + "base_obs.py")], [], ["returned array"])
SC = "rubin_sim/selfcal/"
p("S01", "Self-calibration keeps only usable observations and recovers exact inputs",
  "Cleaning repeatedly removes stars and patches with fewer than two observations until none is left, keeping every other observation, and renumbers stars and patches consistently; for noise-free observations the solution reproduces every observed magnitude difference within each connected set of patches. The observations generated for a set of visits and stars are exactly the stars within the field of view of each visit, each in the patch of the visit that contains it, with all requested offsets added. The caller's observations, stars and visits are not modified.",
  ["inputs"], "all small star/patch observation graphs",
  "no test covers the solver",
  [SC], [("LsqrSolver.clean_data / solve_matrix", SC + "solver.py"), ("generate_catalog", SC + "generate_catalog.py"), ("assign_patches", SC + "star_tools.py")], [], ["solution arrays"])

p("N01", "Photometric, sky-brightness and noise calculations are accurate",
  "Fluxes, magnitudes, signal-to-noise values, limiting magnitudes and sky spectra computed from throughputs, spectra and conditions agree with their defining integrals and interpolations to the stated accuracy.",
  ["inputs"], "all spectra, throughputs and conditions",
  "tests compare a few analytic cases",
  ["rubin_sim/phot_utils/sed.py", "rubin_sim/phot_utils/signaltonoise.py", "rubin_sim/skybrightness/sky_model.py"], [("numeric integration and interpolation", "rubin_sim/phot_utils")])
p("N02", "Satellite and sky-coordinate geometry is accurate",
  "Predicted satellite positions and streak intersections, footprint membership near the edges, parallax, refraction and sky coordinates agree with the underlying geometry to the stated accuracy.",
  ["inputs"], "all constellations, pointings and times",
  "tests compare a few positions",
  ["rubin_sim/satellite_constellations/sat_utils.py", "rubin_sim/moving_objects/base_obs.py"], [("spherical geometry", "rubin_sim/satellite_constellations")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
