"""Writes /verif/properties.jsonl (run after editing)."""
import json
import os

P = []


def prop(id, title, statement, over, text, tests, files, mechanism, observe, state=None):
    anchors = {"files": files,
               "mechanism": [{"name": n, "where": w} for n, w in mechanism],
               "observe_at": observe, "hook_needed": None}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w}
                            for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": tests, "anchors": anchors})


prop("C01", "Parallel hazard calculation equals the serial one for every schedule",
     "For any number of processes and any order in which worker results reach the master, a hazard run "
     "terminates and the saved hazard maps (wind speeds for every recurrence interval, fitted parameters, "
     "coordinates) are identical to those of a single-process run. Every grid cell inside the configured region, "
     "and no other, appears once in the maps and is computed from that cell's own wind speeds in the event files, "
     "whatever the grid size.",
     ["schedules", "configurations", "inputs"],
     "every process count up to a bound, every matching of wildcard receives with pending results, eager and "
     "synchronous sends, every rank execution order between communications; grids giving 1..6 tiles",
     "The tests run the serial branch only; the master/worker protocol is never executed, and an arrival order "
     "cannot be chosen from a unit test.",
     ["hazard/__init__.py", "Utilities/parallel.py"],
     [("master/worker tile protocol", "hazard.HazardCalculator.dumpHazardFromTiles"),
      ("tile partition", "hazard.TileGrid"), ("tile loading", "hazard.loadFile"),
      ("write-out on the master only", "hazard.HazardCalculator.saveHazard")],
     ["hazard.run", "hazard/hazard.nc"])

prop("C02", "Hazard database is complete and the same for every parallel schedule",
     "For any number of processes and any message arrival order, building the hazard database terminates and "
     "leaves exactly one event per wind field file, one wind speed record per event and location, one hazard "
     "record per location and recurrence interval, and one passage record per simulated track and location. The "
     "contents are the same as for a single-process build, and each record carries the values of its own event, "
     "track, location and nearest grid cell. The locations are those of the location file in the region, its borders "
     "included; databases of several configurations built by one process are kept apart.",
     ["schedules", "configurations", "inputs"],
     "every process count up to a bound, every matching of wildcard receives, eager and synchronous sends, all "
     "event/track/location counts up to a bound (including fewer work items than workers)",
     "No test builds a database at all; neither the serial nor the parallel path is executed.",
     ["database/__init__.py", "Utilities/parallel.py"],
     [("event work distribution", "database.HazardDatabase.processEvents"),
      ("track work distribution", "database.HazardDatabase.processTracks"),
      ("hazard rows", "database.HazardDatabase.processHazard")],
     ["database.run", "hazard.db"])

prop("C03", "Synthetic tracks depend only on configuration and seeds",
     "For a given configuration and pair of seeds, track generation writes one track file for each simulation "
     "that has any cyclones, and the content of every file is identical on every run, for every number of processes, "
     "whichever process handles the simulation, and whether or not other simulations are generated in the same run "
     "or before it. Different simulations, and different track seeds, use different random sequences.",
     ["schedules", "configurations", "histories"],
     "all process counts and rank execution orders up to a bound, all simulation counts up to a bound, every "
     "subset position of a simulation in a batch, several seeds",
     "The tests generate single tracks with a fixed seed in one process; none compares process counts, and none "
     "runs the batch driver.",
     ["TrackGenerator/TrackGenerator.py", "Utilities/tcrandom.py", "Utilities/parallel.py"],
     [("per-simulation random stream", "TrackGenerator.run (Simulation, Random(seed, stream))"),
      ("balanced split of simulations", "TrackGenerator.run (balanced)")],
     ["TrackGenerator.run", "tracks/tracks.*.nc"])

prop("C04", "Wind field batches: one complete file per track, across crashes and ranks",
     "A wind field run leaves exactly one wind field file for every track in the track files that comes within the "
     "margin of the region (every track, if no region is set), each holding that track's own fields, and no other "
     "files, for any number of processes and any number of track files. If the run is interrupted at "
     "any point and started again, the final set of files and their contents equal those of an uninterrupted run: "
     "files completed earlier are kept and a partially written file is never taken as finished.",
     ["crash_points", "schedules", "histories"],
     "every crash point at a file-system or NetCDF operation of the run, for one and two successive crashes, for "
     "all process counts and batch shapes up to a bound",
     "No test runs the batch driver or interrupts a write.",
     ["wind/__init__.py", "Utilities/nctools.py", "Utilities/track.py"],
     [("resume test", "wind.WindfieldGenerator.gustFileComplete"),
      ("work split", "wind.WindfieldGenerator.dumpGustsFromTrackfiles / balanced"),
      ("gust file name", "wind.WindfieldGenerator.gustFilename")],
     ["wind.run", "windfield/gust.*.nc"])

prop("C05", "Model runs execute exactly the enabled stages, in order, in step",
     "For every combination of stage switches in the configuration and any number of processes, a model run "
     "terminates having executed each enabled stage once and no disabled stage, in the fixed order download, data "
     "processing, statistics, track generation, wind fields, hazard, plotting, database, evaluation, hazard plots. "
     "No process begins a stage before every process has finished all the earlier ones, and the stages that are "
     "not parallel run on one process only. The output folders exist before the first stage begins.",
     ["configurations", "schedules"],
     "all 2^10 switch combinations, 1..3 processes, every rank execution order",
     "No test runs the program's main entry point; the combinations and rank orders are out of reach of examples.",
     ["tcrm.py", "Utilities/parallel.py", "Utilities/config.py"],
     [("barriers between stages", "tcrm.main"), ("single-process stages", "parallel.disableOnWorkers")],
     ["tcrm.main"])

prop("C06", "Multi-threaded local wind calculation never hangs and is exact",
     "Applying site-exposure multipliers to a regional wind field always terminates, for every number of worker "
     "threads, every segment size and every interleaving of the threads. The local wind raster then holds, for "
     "every pixel, the regional wind speed times the multiplier of the direction the wind at that pixel comes "
     "from, each segment having been processed exactly once, the same as the unsegmented calculation.",
     ["schedules", "inputs", "configurations"],
     "all interleavings of 2-3 worker threads at queue, lock and raster operations up to a preemption bound; all "
     "raster/segment sizes up to a bound; a complete lattice of bearings including every sector boundary",
     "The tests exercise single helper functions; the threaded pass is run once under whatever schedule the OS "
     "picks.",
     ["ProcessMultipliers/processMultipliers.py"],
     [("segment queue", "processMultipliers.call_process_multiplier_segment"),
      ("file locks", "processMultipliers.threadLock_*"),
      ("direction selection", "processMultipliers.processMultiplierSegment / processMult")],
     ["processMultipliers.processMultV2", "processMultipliers.processMult", "output raster"])

prop("C07", "Processed-file ledger remembers exactly what was processed",
     "After any sequence of marking files as processed, starting new runs that read the ledger, modifying, touching "
     "and deleting files, a file is reported as already processed by its checksum or modification time exactly when "
     "the latest entry recorded for its directory and name has that value. A ledger written in one run and read in "
     "the next gives back the same entries, marking a file again replaces what is known about it, and if recording "
     "is interrupted at any point all other entries, earlier and later ones, are still known.",
     ["histories", "crash_points"],
     "all operation sequences up to a depth over two files of the same name in two directories, against a reference "
     "model; a new run and an interruption after any byte of a record at every point of the sequence",
     "The tests run a few fixed sequences on one file.",
     ["Utilities/process.py", "Utilities/files.py"],
     [("ledger store", "process.pSetProcessedEntry / pGetProcessedEntry"),
      ("persistence", "process.pWriteProcessedFile / pGetProcessedFiles"),
      ("decision", "process.pAlreadyProcessed")],
     ["process.pAlreadyProcessed", "the ledger file"])

prop("C08", "Track files return every track unchanged",
     "Any set of tracks written to a track file is read back as the same tracks in the same order, with the same "
     "number of points, the same identifiers, times to the second, positions, pressures and all other fields, and "
     "writing does not alter the tracks held in memory.",
     ["inputs", "histories"],
     "all collections up to a bound of tracks whose lengths, start times (leap days, year ends, sub-hour steps), "
     "identifiers and values are drawn from boundary lattices",
     "The tests save and load one example collection.",
     ["Utilities/track.py", "TrackGenerator/TrackGenerator.py"],
     [("writer", "Utilities.track.ncSaveTracks"), ("reader", "Utilities.track.ncReadTrackData")],
     ["tracks.*.nc"])

prop("C09", "Gridded files and grid sampling return the value of the right cell",
     "A grid saved to file is read back with the same coordinates and the same value at every cell, missing "
     "values included, for every grid shape, data type and both supported formats, whether or not the file existed "
     "before. Sampling a gridded file (rows running from north to south) at any point inside it returns the value "
     "stored at a grid point next to that point, and exactly the stored value when the point is a grid point, for "
     "longitudes given in either the -180..180 or the 0..360 convention. A netCDF grid exported as text has every value in the cell "
     "around its position.",
     ["inputs"],
     "all grid shapes up to 4x4, positive and negative coordinates, all cell positions of missing values, all "
     "sample points of a quarter-cell lattice",
     "The tests read one example file and sample a few points.",
     ["Utilities/grid.py", "Utilities/nctools.py", "Utilities/nc2txt.py"],
     [("ascii grids", "grid.grdSave / grid.grdRead"), ("netCDF grids", "nctools.ncSaveGrid"),
      ("sampling", "grid.SampleGrid.sampleGrid")],
     ["grid.SampleGrid", "saved grid files"])

prop("C10", "An event footprint is the pointwise extreme over all its time steps",
     "For every track, each cell of the event's wind field holds the largest gust that any time step with the "
     "storm inside the region (edges included; without a configured region, the whole degrees around the track) produced at that cell, with the wind components of that same time step, and the "
     "lowest pressure any such time step produced there. Time steps with the storm outside the region contribute "
     "nothing, and a cell never reached has no wind. Combining several tracks takes the same extremes over all their "
     "steps.",
     ["histories", "inputs"],
     "all track shapes up to a bound of steps over a lattice of positions inside, on the edge of and outside the "
     "region, both hemispheres, all profile and wind field models",
     "The tests check single-time-step fields of the profile models only.",
     ["wind/__init__.py", "wind/windmodels.py"],
     [("fold over time steps", "wind.WindfieldAroundTrack.regionalExtremes"),
      ("single step", "wind.WindfieldAroundTrack.localWindField")],
     ["windfield/gust.*.nc", "per-time-step callback"])

prop("C11", "Station time series record every step and the true extremes",
     "For every sequence of wind field steps, each station receives exactly one record for every step, in the order "
     "of the steps and with the time of the step: the values of the nearest grid point if the station is inside the wind field window of the step "
     "(edges included), otherwise zero wind. A station that had any wind gets a file with all its records, and one "
     "entry each in the lists of maxima and minima: the record with the highest gust (lowest pressure) of its own "
     "series. Longitudes of stations may be given in either convention.",
     ["histories", "inputs"],
     "all sequences of window positions up to a depth for stations on a lattice of positions including window "
     "edges",
     "Tests cover one station with one step.",
     ["Utilities/timeseries.py"],
     [("extraction", "timeseries.Timeseries.extract"), ("write-out", "timeseries.Timeseries.shutdown")],
     ["timeseries/ts.*.csv", "maxima.csv", "minima.csv"])

prop("C12", "Wind field evolution file holds every step at its place and time",
     "For every sequence of wind field steps, the evolution file holds one layer per step in the order given, "
     "whose time is the time of the step and whose values are those of the step at the grid points of the step's "
     "window, and the fill value elsewhere; an inner callback sees the same sequence of steps. The content of the "
     "layers already written is readable after every step and is never changed by later steps.",
     ["histories", "inputs", "crash_points"],
     "all sequences of windows up to a depth on a bounded grid, all resolutions and margins of a lattice, reads "
     "after every step",
     "One doctest covers three steps on one grid.",
     ["wind/writer.py"],
     [("windowed append", "wind.writer.WriteFoliationCallback.__call__")],
     ["evolution NetCDF file"])

prop("C13", "Compiled and pure-Python kernels compute the same values",
     "For every input, each kernel that has a compiled and a pure-Python version (wind profiles, wind fields, "
     "distance and bearing grids, pressure profiles, interpolation between knots) gives the same result in both "
     "within floating-point accuracy, whatever the layout of the arrays in memory, so results do not depend on "
     "whether the extensions were built.",
     ["inputs", "configurations"],
     "complete lattices of radii, distances, angles, pressures, latitudes of both hemispheres, betas and knots "
     "for every kernel and model",
     "The test suite runs each kernel in one of the two versions and on few points; no test compares them.",
     ["wind/windmodels.py", "wind/windmodels.f90", "Utilities/maputils.py", "Utilities/maputils.f90",
      "PressureInterface/pressureProfile.py", "PressureInterface/pressureProfile.f90",
      "Utilities/akima.py", "Utilities/akima.c"],
     [("fallback on ImportError", "wind.windmodels, Utilities.maputils, PressureInterface.pressureProfile, Utilities.akima")],
     ["wind.windmodels", "Utilities.maputils", "PressureInterface.pressureProfile", "Utilities.akima"])

prop("C14", "Best-track ingestion never mixes storms and keeps every valid record",
     "For any table of observations, each record is assigned to its own storm: a storm starts where the identifier "
     "(index, serial number, or number and season) changes and at a jump of more than 5 degrees of latitude or 15 degrees "
     "of longitude (10 in loadTrackFile) in any direction. Speeds, bearings and rates of change are computed only from "
     "consecutive records of one storm, with the actual time between them, and are missing otherwise; each "
     "output list has one entry per record of its kind, in order; empty or implausible pressures and speeds are the "
     "missing value; yearly counts of origins, days of the year and the regional frequency count each storm once. The "
     "track domain is the smallest whole-degree box with the region and every storm that enters it, from its "
     "origin to its last point there; all ways of giving dates are read alike.",
     ["inputs", "histories"],
     "all tables up to a bound of storms and records per storm, with every way of marking storms and giving dates, all "
     "placements of missing-value codes, jumps, moves, intervals, seasons and positions around the region of a lattice",
     "The tests process one example database.",
     ["DataProcess/DataProcess.py", "Utilities/loadData.py", "DataProcess/CalcFrequency.py", "DataProcess/CalcTrackDomain.py"],
     [("storm boundaries", "loadData.getInitialPositions"), ("derived fields", "loadData / DataProcess")],
     ["DataProcess.processData", "process/ files", "loadTrackFile"])

prop("C15", "Every point of the domain belongs to exactly one statistics cell",
     "For every domain and cell size, the cells tile the domain: each point of the domain is assigned to exactly "
     "one existing cell, the cell whose bounds contain it, and the cell number and its bounds convert into each "
     "other; points outside of the domain belong to no cell. The statistics and distributions stored for a cell, "
     "over sea and over land, are those of the valid observations in that cell; only where these do not exceed the "
     "minimum number or are all equal, the area is extended by the increment on all sides within the domain until "
     "they do, land cells without enough observations take those over sea, and otherwise an error is raised. "
     "Saved statistics are read back as they were.",
     ["inputs", "configurations"],
     "all domains and cell sizes of a bounded lattice in all four hemispheres, all points of a quarter-cell "
     "lattice, all placements of a bounded number of observations",
     "The tests check a handful of points in one domain.",
     ["Utilities/stats.py", "StatInterface/generateStats.py", "StatInterface/GenerateDistributions.py"],
     [("numbering", "stats.getCellNum / getCellLonLat"), ("extraction", "generateStats.extractParameter")],
     ["StatInterface", "TrackGenerator look-ups"])

prop("C16", "Distribution functions are valid and samples stay in their support",
     "Every distribution generated from data, plain, angular or periodic and with every kernel, is the kernel density "
     "of all its valid observations on the regular grid of values, and its cumulative distribution, as returned and as "
     "stored in files, is non-decreasing, lies in [0, 1] and ends at exactly 1. For every possible uniform deviate,"
     " each parameter sample is one of the tabulated values, the smallest whose cumulative probability reaches the "
     "deviate; each origin is the longitude and then the latitude of its deviates in the genesis density. "
     "The same deviate always gives the same sample.",
     ["inputs"],
     "all small data multisets over a lattice with repeated and extreme values, and for every table all critical "
     "deviates: 0, every step value and its two floating-point neighbours, midpoints, and the largest below 1",
     "Tests draw random samples, which reach the critical deviates with probability zero.",
     ["StatInterface/KDEParameters.py", "StatInterface/SamplingParameters.py", "StatInterface/SamplingOrigin.py",
      "StatInterface/GenerateDistributions.py", "TrackGenerator/TrackGenerator.py"],
     [("table generation", "KDEParameters / stats.cdf"), ("inverse sampling", "SamplingParameters / ppf")],
     ["StatInterface", "TrackGenerator.TrackGenerator"])

prop("C17", "Return levels depend only on the cell's own winds and rise with period",
     "For every set of wind speed records, the return-level wind speeds of a cell do not decrease with the "
     "recurrence interval and do not depend on the order of the records or on the records of other cells; they are "
     "the levels of the distribution fitted to the cell's own records: extreme values by their L-moments, "
     "Pareto exceedances of the 99.5th percentile, a power law through the records above their mean, or the ranked "
     "records themselves. They are the missing value where nothing can be fitted, including fewer records than "
     "the configured minimum for the extreme value and Pareto fits; a cell with no wind gets zeros, never the "
     "values of another cell. Confidence limits are the percentiles of the fits to the selected samples, "
     "leaving out the samples that could not be fitted; the annual maximum of a simulated year is the highest of "
     "the winds of that year's own files.",
     ["inputs", "histories"],
     "all record multisets up to a bound over a lattice of speeds, all permutations for small sets, all four "
     "fitting methods, all neighbour contents of a lattice",
     "Tests fit one or two sample series.",
     ["hazard/evd.py", "hazard/GPD.py", "hazard/__init__.py"],
     [("fits", "hazard.evd.gevfit/empfit/powerfit, hazard.GPD.gpdfit")],
     ["hazard.run", "hazard.evd"])

prop("C18", "A failed download never leaves a dataset that looks complete",
     "For every sequence of network faults and interruptions while fetching a dataset, the destination afterwards "
     "either holds the complete decompressed content or is reported as not downloaded, and a failure is reported "
     "to the caller as an IOError. Repeating the download after a fault yields the complete file. Every dataset the "
     "configuration lists is fetched into its own path and under its own name.",
     ["fault_sequences", "crash_points"],
     "every fault kind at every read and file operation of a download, for plain, gzip and zip sources, and all "
     "fault/retry sequences up to a depth",
     "No test downloads anything.",
     ["Utilities/datasets.py"],
     [("completeness test", "datasets.DataSet.isDownloaded"), ("transfer", "datasets.DataSet.download")],
     ["datasets.DataSet", "the dataset file"])

prop("C19", "Simulated tracks stay physical for every sequence of random draws",
     "For every sequence of random deviates, a saved track has times exactly one configured step apart, at most the "
     "configured number of points, all inside the track domain, a duration of at least 12 hours, a radius between 5 "
     "and 500 km, bearings within [0, 360], central pressure below the surrounding pressure, and each position is "
     "reached from the previous one with its speed and bearing. Over land the pressure deficit decays exponentially "
     "with the time since that landfall, from its value at sea, at the rate that this deficit, the speed at landfall and "
     "one deviate per storm give; the radius of maximum winds follows the deficit and latitude with one deviate per storm "
     "(unless radii are taken from the input data). A storm does not depend on the storms generated before it in the same "
     "simulation.",
     ["histories", "inputs"],
     "all sequences up to a depth of deviates from a critical set (smallest, median, largest), for all coast "
     "layouts of a small lattice and both hemispheres",
     "The tests run a few seeds.",
     ["TrackGenerator/TrackGenerator.py", "TrackGenerator/trackLandfall.py", "TrackGenerator/trackSize.py"],
     [("step function", "TrackGenerator.TrackGenerator._singleTrack"),
      ("acceptance rules", "TrackGenerator.TrackGenerator.generateTracks")],
     ["TrackGenerator.TrackGenerator.generateTracks"])

prop("C20", "Configuration values: the file wins, defaults fill in, types are kept",
     "For every configuration file, reading an option returns the value in the file if it is given there, "
     "otherwise the built-in default, otherwise the default the caller supplied, converted to the requested type; "
     "the answer does not depend on the order of earlier reads or on other options. All parts of a program share the "
     "file read first: reading the same or another file after that changes nothing, until a reset, after which nothing "
     "of the earlier file remains.",
     ["configurations", "histories"],
     "all presence/absence and value combinations of a bounded set of sections and options, all operation "
     "sequences of read/get/set/reset up to a depth, against a reference model",
     "Tests read one example file.",
     ["Utilities/config.py"],
     [("single shared parser", "config.ConfigParser / reset"), ("typed lookup", "config.cnfGetIniValue")],
     ["Utilities.config"])

prop("C21", "Track interpolation keeps observed points, order and bounds",
     "For every input track, interpolating to a given time step returns records from the first to the last "
     "observation in constant steps, the last step ending at the last observation (both ends only, if the track is "
     "shorter than a step), with dates that match. Wherever a record falls on an observation it has the observed "
     "position; pressure, surrounding pressure and radius are linear between observations, and pressure is missing "
     "before the first and after the last valid one and never made up from missing values. Speeds and bearings are those "
     "of the interpolated positions; tracks are not mixed and keep their order, tracks of one record are not "
     "altered, and the saved file reads back the same.",
     ["inputs"],
     "all tracks up to a bound of points over lattices of intervals, moves and pressures including missing ones, from "
     "netCDF and text sources, for every interpolation method and several steps",
     "No stable test runs the interpolation.",
     ["Evaluate/interpolateTracks.py", "Utilities/akima.py", "Utilities/track.py"],
     [("interpolation", "interpolateTracks.interpolate"), ("saving", "track.ncSaveTracks")],
     ["interpolateTracks.parseTracks", "tracks.interp.nc"])

prop("C22", "Evaluation counts are exact and independent of the number of processes",
     "For every set of historical and simulated track files and every number of processes, each evaluation "
     "(landfall rates, track density, genesis density, pressure distribution, longitude crossings) terminates and "
     "its results equal those of a single-process run, every track file being counted once. A track is counted in "
     "exactly the grid cells that contain its points, and in exactly the longitude gates and coastal gates that its "
     "segments cross, in the direction of the crossing: a track point on a line of longitude belongs to the eastern "
     "side, landfall is the step from outside to inside the coast of the gates. Means and percentiles are taken over "
     "all simulations, those without a crossing included; densities of tracks are per year; cells without a pressure are "
     "saved as missing, and missing pressures do not enter the lowest pressure of a track; the genesis density is claimed for simulations with at least three genesis points in the region.",
     ["schedules", "inputs"],
     "all process counts up to a bound including more processes than files, all matchings of wildcard receives, "
     "all small tracks over a lattice",
     "Tests call helper functions; the parallel branches never run.",
     ["Evaluate/landfallRates.py", "Evaluate/trackDensity.py", "Evaluate/genesisDensity.py",
      "Evaluate/pressureDistribution.py", "Evaluate/longitudeCrossing.py"],
     [("master/worker distribution", "Evaluate.*.synthetic"), ("counting", "Evaluate.*.process")],
     ["Evaluate.*"])

prop("C23", "Database queries return exactly the matching records",
     "For every content of a hazard database, each location query returns exactly the records of that location "
     "that satisfy the thresholds given: the events with winds above a given speed or above the return level of a "
     "given recurrence interval, and the tracks passing within a given distance. Each event appears once, with its own wind speed and "
     "values at that location and not those of another location, in ascending order of wind speed (return levels: of "
     "recurrence interval).",
     ["inputs"],
     "all databases up to a bound of locations and events over a lattice of wind speeds, distances and return "
     "levels, with thresholds equal to, between and outside the stored values",
     "No test runs a query.",
     ["database/queries.py"],
     [("query text", "database.queries.locationRecordsExceeding / locationPassage / locationReturnPeriodEvents")],
     ["database.queries"])

prop("C24", "Local time series apply the multiplier of the direction the wind comes from",
     "For every set of stations, time series and site-exposure multipliers, applying the multipliers to the series "
     "writes one local series for each station that has a regional one, with one record per regional record in the same "
     "order. The local speed is the regional speed times the station's own multiplier for the direction the wind comes "
     "from, which is the given one at each of the eight directions and linear between neighbouring ones; everything else "
     "in the record is unchanged, and so are the regional series. The lists of local maxima and minima hold for each "
     "station its record with the highest local speed and the lowest pressure.",
     ["inputs"],
     "all directions of a lattice, all short sequences of records, all subsets of stations with a series",
     "No test imports the program, which could not be imported.",
     ["Utilities/tsmultipliers.py"],
     [("interpolation of multipliers", "tsmultipliers.tsmultiply"), ("station loop", "tsmultipliers.process_timeseries")],
     ["process/timeseries/local"])

prop("C25", "Shape file export keeps every track point with its own attributes",
     "For every best-track file and every file of generated tracks, the export program writes three shape files; the "
     "point file has one feature per track point, at its position, in order; the line file has one feature per track "
     "point, which runs to the next point of the same track, or has no length at the last point and where the track "
     "crosses longitude zero in either direction. Both carry the attributes of that point and the category of its "
     "central pressure (0 where that is missing); the dissolved file has one feature per track that goes through all its points in order, broken "
     "into parts where the track crosses longitude zero; for best tracks its attributes are the start time, age, lowest "
     "known pressure and highest wind of that track, for generated tracks those of the first point. No track or point is left out, "
     "however short the track, and no line runs across the whole map.",
     ["inputs"],
     "all sequences of crossings of the meridian in short tracks, all pairs of short tracks, pressures at the limits",
     "No test imports the export program.",
     ["Utilities/tracks2shp.py", "Utilities/columns.py"],
     [("line features", "tracks2shp.tracks2line"), ("points", "tracks2shp.tracks2point"),
      ("categories", "tracks2shp.add_category")],
     ["*_pt.shp, *_line.shp, *_dissolve.shp"])

prop("C26", "A scenario run makes exactly what its options ask for, from the event's own data",
     "For every track file and every combination of options (wind field map, time series, wind fields of all steps, "
     "impact, region), running the scenario program writes the interpolated tracks of all storms of the file in "
     "five-minute steps, and for each storm the wind field of its interpolated track; the map of the highest winds is made only "
     "if asked for and shows the values of the first storm's wind field at their places within the region. Time series "
     "are extracted only if asked for; every station then has a series over all the steps and one figure under its own "
     "name, with its own title, times, pressures, speeds and directions. Wind fields of all steps are saved, and the "
     "impact program is called once per wind field, only if asked for; nothing else is written.",
     ["configurations", "inputs"],
     "all combinations of options for several kinds of track file, all short names of stations over an alphabet",
     "No test runs the scenario program.",
     ["tcevent.py", "PlotInterface/plotTimeseries.py", "PlotInterface/timeseries.py", "impact/__init__.py",
      "Evaluate/interpolateTracks.py", "wind/__init__.py"],
     [("scenario", "tcevent.main"), ("choice of the wind field", "tcevent.doWindfieldPlotting"),
      ("names of figures", "plotTimeseries.plotTimeseries"), ("impact", "impact.run_optional")],
     ["tcevent.py -c scenario.ini"])

prop("C27", "Hazard maps and curves show the hazard data in the chosen units",
     "For every choice of wind speed units, smoothing and confidence range, and wherever values are missing, the hazard "
     "plotting stage makes one map per return period and one curve per location with data. A map shows the values of "
     "that return period at their places, in the chosen units, over the whole domain, and nothing where values are "
     "missing; smoothed maps show averages of the valid values nearby. A curve shows the return levels of the cell "
     "nearest the location, the confidence range of that cell only if it was calculated, and the empirical return "
     "periods of the events recorded at that location, all in the chosen units.",
     ["configurations", "inputs"],
     "all combinations of units, smoothing, confidence ranges, domains and patterns of missing cells, all sets of return periods",
     "No test runs the plotting stage.",
     ["PlotInterface/AutoPlotHazard.py", "PlotInterface/curves.py", "PlotInterface/maps.py", "Utilities/smooth.py",
      "Utilities/metutils.py"],
     [("maps", "AutoPlotHazard.plotMap"), ("curves", "AutoPlotHazard.plotHazardCurves"), ("smoothing", "smooth.smooth"),
      ("units", "metutils.convert")],
     ["plots/hazard"])

prop("C28", "The wind field of every storm is a cyclone around its centre",
     "For every documented radial profile and boundary layer model and every storm, the wind field and pressure are finite "
     "and centred on the storm: the pressure is the central one in the middle and rises outwards to the environmental one; "
     "winds circulate in the sense of the hemisphere and inwards, are strongest near the radius of maximum winds, and "
     "balance the pressure at gradient level. A storm at rest has the same winds in all directions, falling outwards; a "
     "deeper storm or a larger beta has stronger winds. Motion adds to the winds whatever its direction, for Kepert's "
     "model on the left of the motion in the southern and on the right in the northern hemisphere, for the other models "
     "at the configured azimuth (southern hemisphere); a storm mirrored into the other hemisphere has the mirrored field.",
     ["inputs", "configurations"],
     "complete lattices of latitudes, central pressures, radii, speeds and directions of motion, azimuths and betas for "
     "every profile and boundary layer model",
     "The tests compare single profiles with stored values; none looks at a whole field, at other storms or at both hemispheres.",
     ["wind/__init__.py", "wind/windmodels.py", "wind/windmodels.f90", "PressureInterface/pressureProfile.py", "Utilities/maputils.py"],
     [("local wind field", "wind.WindfieldAroundTrack.localWindField"), ("gusts", "wind.WindfieldAroundTrack.regionalExtremes"),
      ("profiles and boundary layers", "wind.windmodels"), ("pressure", "pressureProfile.PrsProfile")],
     ["gust files"])

prop("C29", "Multipliers prepared from raw tiles are those of the tiles asked for",
     "For every set of tiles asked for, whatever other tiles are there, the local wind program makes one multiplier map per "
     "direction that covers these tiles: each cell holds the product of the shielding, terrain and topographic multipliers "
     "of that direction from the tile that contains it, and is missing where one of the three is missing or no tile lies. "
     "The local wind is the regional wind times the multiplier of the direction it comes from, and the regional wind where "
     "that is missing. What earlier runs in the same working folder have left there, complete or interrupted at any point, "
     "makes no difference, and the raw tiles are not changed.",
     ["inputs", "histories", "crash_points"],
     "all sets of tiles of a 2 x 2 block, overlapping tiles, missing values in all subsets of the three multipliers, pairs of "
     "runs in one folder, and an interruption before every command or file operation followed by another run",
     "The tests call the raster functions one by one; none prepares tiles, and none runs the program twice.",
     ["ProcessMultipliers/processMultipliers.py"],
     [("old files removed", "processMultipliers.getMultipliers.checkOutputFolders"),
      ("tiles", "processMultipliers.getMultipliers.copyTranslateMultipliers"),
      ("merged", "processMultipliers.getMultipliers.mergeWindMultipliers"),
      ("product", "processMultipliers.getMultipliers.combineDirections")],
     ["m4_<direction>.tif", "local_wind.tif"])

prop("C30", "The surrounding pressure of a storm is that of its place and day",
     "However the long-term mean sea level pressures are stored (latitudes from either end, packed or not, in any "
     "supported unit, on any global grid that starts at 0 degrees east), the mean pressure taken for a storm is that of its own "
     "latitude, longitude and day of year, to within one grid point and two days, whether the storm is simulated or read "
     "from best tracks, and whatever other records are read with it. The pressure of the outermost closed isobar is the documented "
     "regression on that mean, the central pressure, the latitude and the day, plus one deviate per storm; a given mean or "
     "outer pressure column is used as it is. The outer pressure is unknown (not a number) where the central pressure is missing "
     "or above the mean, and interpolated tracks use the known values only.",
     ["inputs"],
     "climatologies given by formulas in all storage orders, packings, units and grids, a lattice of days, hours, latitudes "
     "and longitudes; all patterns of missing and high central pressures in short tables; deviations of scripted deviates in "
     "simulated tracks",
     "Tests sample one constant or one stored field, with latitudes in one order and without packing.",
     ["Utilities/loadData.py", "TrackGenerator/TrackGenerator.py", "Utilities/interp3d.py", "Utilities/nctools.py",
      "Evaluate/interpolateTracks.py"],
     [("observed storms", "loadData.ltmPressure"), ("regression", "loadData.getPoci"),
      ("simulated storms", "TrackGenerator.SamplePressure"), ("grid index", "interp3d.interp3d"),
      ("gaps", "interpolateTracks.interpolate")],
     ["track.EnvPressure"])

prop("C31", "Units, distances and directions are consistent",
     "A quantity converted between any two of the supported units of its kind (speed, pressure, length, temperature, mixing "
     "ratio) is the same quantity to within 0.15 per cent (0.3 degrees), as a number, an array or an array with missing values, and the "
     "given values are not changed; so a best track file gives the same track in whatever units its columns are. A position moved a "
     "distance along a bearing is that distance away on that bearing according to all functions that measure them and all grids "
     "around it, in both longitude conventions; the step lengths and bearings of a track are those of its pairs of points, "
     "to within 2 per cent and 1.5 degrees of the great circle below 45 degrees latitude; bearings and angles convert back, "
     "and so do UTM coordinates, which are those of the zone of the point; the nearest element of an axis is the nearest.",
     ["inputs"],
     "all ordered pairs and triples of units in all forms; best tracks in all combinations of units; a lattice of positions, "
     "bearings and distances including poleward places, the date line, 0 degrees east and distance zero",
     "Tests convert a few pairs of units and compare single grids with stored values.",
     ["Utilities/metutils.py", "Utilities/maputils.py", "Utilities/loadData.py", "Utilities/lat_long_UTM_conversion.py"],
     [("units", "metutils.convert"), ("moved positions", "maputils.bear2LatLon"), ("grids", "maputils.makeGrid"),
      ("steps", "maputils.latLon2Azi"), ("files in other units", "loadData.loadTrackFile")],
     ["tracks and wind fields"])

prop("C32", "Wind speeds estimated from pressures follow the published relations",
     "Unless the given wind speeds are asked for, the wind speed of every record of a best track is that of Holland et al. (2010) for "
     "the record's own pressure deficit and latitude and the forward speed and pressure change since the preceding record of "
     "the same storm, times 0.9524, whatever other storms are in the file; the first record has no forward speed or change, "
     "forward speeds above 200 km/h and changes above 5 hPa per hour count as none, and the wind speed is zero where the central "
     "pressure is missing or not below the outer pressure. The strongest wind and lowest pressure of a track are those of "
     "its records. The Holland, Willoughby and Atkinson relations between deficit and wind speed rise with the deficit, are the same in hPa "
     "and Pa, refuse a negative deficit, and their inverses give the pressure back.",
     ["inputs"],
     "all storms of up to three records over an alphabet of pressures (missing and too high ones included), steps and time "
     "steps from several places, together and alone; a lattice of pressures and parameters for the plain relations",
     "Tests compare one stored track, without missing or high pressures, and single values of the plain relations.",
     ["Utilities/loadData.py", "wind/vmax.py"],
     [("best tracks", "loadData.maxWindSpeed"), ("forward speed", "loadData.getSpeedBearing"), ("plain relations", "vmax.vmax"),
      ("inverse", "vmax.pDiff")],
     ["track.WindSpeed"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                       "properties.jsonl")
    with open(out, "w") as fh:
        for p in P:
            fh.write(json.dumps(p) + "\n")
    print(len(P))
