"""Technique and assurance notes of the registered checks, and reasons for unclaimed properties."""
BASE = ("Exhaustive for the bounded specification; for the code, every executed history/input is judged by TLC "
        "against the specification, so assurance covers the executed ones only. ")
ARCH = ("TLA+ state machine (VsArchive) model-checked with TLC; TLC-generated and random histories executed on the "
        "real archive against a private PostgreSQL, every step's result and full database content validated by TLC")
CASE = ("TLA+ specification checked with TLC; spec-enumerated and random inputs run through the real code, every "
        "result judged by TLC against the specification")
PG = BASE + "Trusts PostgreSQL, psycopg2 and the harness' reading of rows; the database session runs in UTC."
SQL = BASE + "Trusts sqlite and the harness' reading of rows."
MB = BASE + "Floating point results are taken as the nearest small fraction (relative error 1e-9)."
NOTES = {
    "A01": (ARCH, PG),
    "A02": (ARCH, PG),
    "A03": ("TLA+ transaction specification (VsFault, VsArchive) with TLC; every database write of every operation "
            "made to fail in turn (rejected statement, refused commit, lost connection) on the real archive, "
            "outcome validated by TLC", PG + " Faults are injected with database triggers."),
    "A04": ("TLA+ connection-pool specification (VsPool) with TLC incl. liveness; long mixed histories on the real "
            "archive, server-side sessions observed after each step and validated by TLC", PG),
    "A05": ("TLA+ state machine of metadata plus object store (VsStore) with TLC; generated histories of file "
            "additions on the real archive and a scratch directory tree, validated by TLC", PG),
    "A07": ("TLA+ specification of nightly statistics (NightlyStats) with TLC; enumerated and random visit tables "
            "through the real code, results judged by TLC", PG + " Quantiles/means compared as scaled integers."),
    "A06": ("TLA+ specification of archive queries (VsQuery) with TLC; spec-enumerated and random catalogues loaded into "
            "the real archive, every answer judged by TLC", PG + " Ages within 25 minutes of a day multiple are avoided."),
    "A08": ("TLA+ specification of archive queries (VsQuery) with TLC; the same catalogues asked through the database and "
            "through file indexes written by the real command line, every answer judged by TLC",
            PG + " Simulations older than a year and ages between max and max+1 days are outside the claim."),
    "A09": ("TLA+ specification of export and import (VsExport) with TLC; simulations exported from one archive and imported "
            "into another, both described by direct SQL and judged by TLC", PG),
    "A10": ("TLA+ specification of the file based archive (VsProto) checked with TLC; TLC generated and random histories of "
            "additions, failed additions, passing days and compilations run on real directories, answers judged by TLC",
            "The passing of a day is emulated by renaming the day's directory; additions are sequential (no concurrent writers)."),
    "A11": ("TLA+ specification of visit tables (VsVisits) checked with TLC; TLC generated and random tables converted between "
            "formats and asked for by condition, derived column and night range, every answer judged by TLC",
            PG + " Table names are plain identifiers and simulations have at least one visit."),
    "A12": ("TLA+ specification of runs and the directories that keep them (VsRun) checked with TLC; TLC generated and random histories "
            "of saving, driving and command line runs on the real sim_runner, the files read back and judged by TLC",
            "The observatory and scheduler are small stand-ins with visits known in advance; the almanac is synthetic (no data files here)."),
    "B01": ("TLA+ state machine of the results database (ResultsDb) model-checked with TLC; generated and random histories on "
            "the real class, all tables read back by direct SQL after every step and validated by TLC", SQL),
    "B02": ("TLA+ specification of results database queries (ResultsDb) with TLC; random contents asked with random argument "
            "combinations, every answer judged by TLC", SQL),
    "B03": ("TLA+ state machine with schema changes (ResultsDb) model-checked with TLC; generated histories of additions, "
            "downgrades and re-openings over every historical schema, tables validated by TLC", SQL),
    "B04": ("TLA+ state machine of run tracking (TrackDb) model-checked with TLC; generated and random histories incl. "
            "refused writes on the real database, rows validated by TLC", SQL),
    "B05": ("TLA+ specification of gathering and selecting summaries (RunSummaries) with TLC; spec-enumerated and random run "
            "directories and selections through the real code, results judged by TLC", SQL),
    "B06": ("TLA+ specification of normalization in exact fractions (RunSummaries) with TLC; random integer tables through the "
            "real code, results judged by TLC", BASE + "Values are compared at a resolution of 1e-4."),
    "M03": ("TLA+ specification of slicing (Slicers) checked with TLC; spec-enumerated and random visits and bin "
            "definitions through every slicer class, every slice judged by TLC",
            BASE + "A value exactly at a one-dimensional slicer's last edge is unconstrained (documentation and code differ)."),
    "M01": ("TLA+ specification of grouping and running bundles (MafGroup) checked with TLC; spec-enumerated and random "
            "groups run through MetricBundleGroup, every value and mask judged by TLC",
            BASE + "Metrics must be functions of the set of visits; stackers which overwrite a column read earlier by the "
            "same bundle, and bundles run twice, are outside the claim."),
    "M02": ("TLA+ specification of the cached run (MafCache) checked with TLC, including a rejected wrong key; all small "
            "patterns of visits per slice point through the real cached and uncached runs, judged by TLC",
            BASE + "Metrics which depend on the slice point or maps are outside the claim."),
    "M04": ("TLA+ state machine of bundles written to and read from files (MafStore) checked with TLC; spec-enumerated and "
            "random values, slicers and groups through the real files, every read judged by TLC",
            BASE + "Whether a slicer that was set up equals one that was not is unconstrained for bins that depend on the visits."),
    "M08": ("TLA+ specification of the export (MafStore) checked with TLC; random values, masks and slicers exported by the "
            "real code, every row judged by TLC", BASE),
    "B07": ("TLA+ specification of result pages (WebResults) checked with TLC; spec-enumerated and random databases through "
            "the results object and the real web server, answers and parsed pages judged by TLC",
            BASE + "Statistics on pages are whole numbers (so that the printed precision does not matter); names free of '<' "
            "and '>', group names free of '__' and '+'."),
    "T01": ("TLA+ specification of visit pairs and groups (VisitGroups) in exact fractions, checked with TLC; all small sets "
            "of visit times from TLC and random ones run through the real metrics in shuffled orders, judged by TLC", MB),
    "T02": ("TLA+ specification of changes of state (StateChanges) checked with TLC; spec-enumerated and random visit "
            "sequences through the real metrics, judged by TLC",
            MB + " The first interval is measured from the first visit."),
    "T03": ("TLA+ specification of gaps between visits (Gaps) in exact fractions, checked with TLC; spec-enumerated and random "
            "visits through every gap metric, judged by TLC", MB + " Nights do not decrease with time."),
    "T05": ("TLA+ specification of discovery and the other moving object metrics (MoObs) checked with TLC (all small histories: "
            "definition by subsets of nights, monotonicity); histories run through the real metrics in any order, every result judged by TLC",
            MB + " Probabilistic detection (vis column) is given, not drawn. Fractions of the orbit with an orbit given by the time of "
            "perihelion are a recorded finding (K01). With two colour pairs asked for, ambiguous pairings are unconstrained."),
    "T06": ("TLA+ specification of seasons (Seasons) checked with TLC (seasons partition the visits, lengths and gaps make up the whole); "
            "enumerated and random histories over many seasons and targets through the real metrics, every result judged by TLC",
            MB + " Visits are at least 1.5 hours away from a change of season; dust extinction uses simple bandpasses; the powers in the "
            "time delay formulas are compared as logarithms to 1e-5."),
    "T09": ("TLA+ specification of derived columns (Stackers: civil dates, hour angles, overheads, effective times in exact numbers) checked with "
            "TLC; spec-enumerated and random tables through chains of the real stackers, whole tables and single visits compared, every "
            "value judged by TLC",
            MB + " The NEO distance stacker (which looks at the whole table), empty tables, labels of more than 15 characters and string columns "
            "other than the band in coadds are outside the claim."),
    "M07": ("TLA+ specification of moving object bundles (MoGroup) checked with TLC (any grouping of compatible bundles, in any order, gives each its "
            "own values); spec-enumerated and random groups run for real on orbit and observation files, read back and compared by TLC",
            MB + " Stackers and metrics of the groups are small ones whose meaning the specification states, next to the real magnitude stacker; "
            "magnitudes are far from the detection limit, where visibility is not random."),
    "M09": ("TLA+ specification of population summaries (MoPop) in exact fractions, checked with TLC; spec-enumerated and random tables through the "
            "real summary metrics and completeness bundles, every value judged by TLC",
            MB + " At least two magnitudes for cumulative values; size distributions that grow by a whole factor per step; discoveries never exactly at one of the times; "
            "the sum of two power laws (Granvik) is only checked to be positive, growing and independent of the range."),
    "C01": ("TLA+ specification of fitting segments along a span (Fits: choosing a length, splitting where the fit misses, giving up) checked with TLC "
            "for all small patterns; each pattern is realised as a path with kinks and missing values behind a stand-in for the orbit integrator, fitted "
            "with the real ChebyFits, and segments, failures and residuals are judged by TLC",
            BASE + "The orbit integrator (not installed) is a stand-in that returns exact positions; n_decimal 0 to 4, 10 and 13; times known to 1e-6 day; "
            "with few decimal places a refusal that reports everything as failed is accepted."),
    "C02": ("TLA+ specification of segment lookup (Ephem) checked with TLC; spec-enumerated coverage and query times through the real ChebyValues "
            "and files written by ChebyFits, judged by TLC",
            BASE + "The end of a segment before a gap may count either way; extrapolation only beyond the ends of the coverage."),
    "C03": ("TLA+ specification of validating, completing, selecting, updating and comparing orbit tables (OrbitSets) checked with TLC; spec-enumerated and "
            "random tables and files through the real Orbits, judged by TLC",
            BASE + "Different epochs beyond the first row, eccentricities of one and more and the colours of cartesian orbits are not constrained."),
    "C04": ("TLA+ specification of the orbit integrator's interface (Oorb: elements and format as state; set, convert, propagate, read, ephemerides, each "
            "possibly failing) checked with TLC; all short histories replayed against the real PyOrbEphemerides over a recording stand-in, every call and result judged by TLC",
            BASE + "The orbit integrator (not installed) is a stand-in computing with whole numbers; objects of one set share their epoch."),
    "C05": ("TLA+ specification of two-stage matching of visits with moving objects (Sightings) checked with TLC (nothing missed when the first tolerance allows "
            "for the motion); enumerated and random visits and objects through the real DirectObs over a stand-in integrator, every row judged by TLC",
            BASE + "Positions exactly on the edge of a field are avoided; off the equator and the object's meridian only clear cases are decided; rectangles at declinations 0 and 60; "
            "colours are given, not computed from spectra (absent offline)."),
    "S01": ("TLA+ specification of cleaning and solving (SelfCal: greatest set in which every star and patch occurs twice) checked with TLC for all small "
            "graphs of stars and patches; each graph through the real LsqrSolver and random fields through generate_catalog, judged by TLC",
            BASE + "Magnitudes to 1e-4; positions never on patch edges; either direction of rotation; when nothing is left an error or an empty solution is accepted."),
    "T04": ("TLA+ specification of template building (Seasons) checked with TLC (earliest possible, monotone in the benchmarks); enumerated and "
            "random histories through the real metrics, every part of the result judged by TLC",
            MB + " Depths are chosen so that inverse variances are small integers; the zenith-to-declination scaling of the thresholds is inverted by the harness."),
    "T07": ("TLA+ specification of binned metrics (Vector) in exact fractions, checked with TLC; spec-enumerated visits and "
            "bins through every vector metric, each bin judged by TLC", MB),
    "T08": ("TLA+ specification of elementary statistics (SimpleStats) in exact fractions, checked with TLC; spec-enumerated "
            "and random multisets through every simple metric, judged by TLC", MB),
    "M05": ("TLA+ specification of reduce, summary and bookkeeping (MafGroup) checked with TLC; groups run, written, read "
            "and registered for real, every event judged by TLC", BASE),
    "M06": ("TLA+ specification of column and stacker resolution (MafGroup) checked with TLC; spec-enumerated stacker "
            "dependency graphs and every stacker class of the package run for real and judged by TLC",
            BASE + "Stackers needing data files absent offline (SFD maps, throughputs) run only where they do not need them."),
}
NOT_APPLICABLE = {
    "N01": "numeric integration and interpolation over large tabulated spectra: no discrete state, transitions or "
           "finite case structure for TLA+/TLC (integers only) to decide, and the data files are not present offline",
    "N02": "spherical trigonometry and orbit propagation: real-valued functions TLC cannot evaluate; any check would "
           "be a numeric reference implementation, not a model-based one",
}
# What each check explores that the unit tests do not.
REACH = {
    "A01": "all short histories of recording, updating and reading over a small universe of kinds and optional fields; the tests record one sequence of each kind.",
    "A02": "all short histories of tag/untag/comment/register over two sequences, with refused operations in between, the full tables compared after each step.",
    "A03": "a failure at every single statement of every operation (rejected statement, refused commit, lost connection); the tests never fail a statement.",
    "A04": "histories longer than the pool, mixing refused, failing and read-only calls, with the server's own view of sessions after each call; liveness (a connection is always available again) in the model.",
    "A05": "histories of additions, replacements and refusals over several types, names and sequences that may collide; every stored byte compared after each.",
    "A06": "all small catalogues and requests around the borders of the night range, of tags and of age.",
    "A07": "all small visit tables incl. visits around noon UTC, missing nights, single and equal values.",
    "A08": "the same question through two implementations (database, file index) for generated catalogues; the tests ask one.",
    "A09": "round trips through two archives for all combinations of absent fields and odd names.",
    "A10": "histories across days, with additions failing at each step and stale listings.",
    "A11": "round trips of tables with extreme and missing values, all small conditions and night ranges.",
    "A12": "histories of runs sharing directories, dictionaries and file names; runs shorter and longer than a day; overheads cut to the minimum.",
    "B01": "all short histories of records over keys that agree in all but one component (also empty and None); operations cut short at any SQL statement; a locked database.",
    "B02": "random contents with look-alike names asked with every combination of arguments.",
    "B03": "every historical schema, upgraded and downgraded repeatedly with writes in between, cut short at any SQL statement.",
    "B04": "all short histories of additions, removals and refused writes, directories in several spellings.",
    "B05": "many runs with overlapping, missing, repeated summaries, in several orders.",
    "B06": "all combinations of inversion and magnitudes, one or several baselines, missing values.",
    "B07": "random databases with look-alike groups and names, through the object and the real HTML pages.",
    "M01": "all groups of two bundles out of a universe of metrics, slicers, constraints, stackers and maps, and random larger groups, each bundle also alone.",
    "M02": "all patterns of visits over a few slice points with every cache size; a wrong key is rejected by the model.",
    "M03": "values on and next to every edge, all slicer classes, their caches and repeated set-up.",
    "M04": "every slicer class with every setting, every data type, masks and fill values.",
    "M05": "reduce and summary metrics of scalar and record type, masked points, name clashes between bundles.",
    "M06": "all small dependency graphs of stackers (diamonds, cycles refused, overrides) and every class of the registry.",
    "M07": "random groups with child metrics, constraints and several magnitudes run on files, against the definition.",
    "M08": "values, masks and slicers incl. zeros, infinities and empty results.",
    "M09": "all small tables of objects and magnitudes incl. missing cells, thresholds met exactly, every summary.",
    "T01": "all small sets of visit times incl. gaps equal to the window's ends, in any order.",
    "T02": "all small sequences of states and times, gaps equal to the cut-off, shuffled.",
    "T03": "all small histories incl. gaps equal to bin edges and limits, and histories of many visits.",
    "T04": "all small histories around the visit that completes the template, with ties of benchmark and visit.",
    "T05": "all small histories: the definition by subsets of nights is compared with the window algorithm, limits met exactly.",
    "T06": "targets at several right ascensions, visits around the change of season, many seasons with empty ones.",
    "T07": "visits on every edge, before the first and after the last bin, empty bins.",
    "T08": "all small multisets with repeated, negative and equal values, and larger random ones, in any order.",
    "T09": "chains of stackers on tables and on each visit alone; a dependence on other visits shows as a difference.",
    "C01": "all patterns of where a fit misses its tolerance or a value is missing, over the span.",
    "C02": "all small coverages (gaps, borders, several objects) and query times.",
    "C03": "tables with every column absent in turn, every element out of range in turn, all formats, files.",
    "C04": "all short histories of calls with a failure at any call.",
    "C05": "objects and visits around RA 0, field borders and the first pass's tolerance, in any order.",
    "S01": "all small graphs of stars and patches, incl. chains that unravel one by one, several components.",
}
