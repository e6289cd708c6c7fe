"""Writes /verif/properties.jsonl (kept as code so that wording and anchors are reviewed in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    if hook:
        a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("D01", "A failed lazy read is all-or-nothing and retryable",
     "When reading a lazily loaded variable or coordinate (ungridded NetCDF, HDF4 or gridded NetCDF, from one or many files) is hit by an I/O error, a truncated or interrupted read or a failed allocation at any point, the access either raises or delivers exactly the values of an undisturbed read; it never delivers, caches or later exposes partial, unconverted, unmasked or misaligned values. Once the disturbance has passed, the very same data object delivers, through every accessor (values, coordinates, flattened views, shape, size, points, coordinates' ranges), exactly what an undisturbed object delivers.",
     ["fault_sequences", "histories"],
     "every data product readable without special hardware, every sequence of accesses to data and coordinates, every position at which a read, open or allocation fails, is cut short or interrupted, and every retry after it",
     "The tests read intact local files only; none makes a read fail, so the half-loaded states between two files of a multi-file read, or between loading and post-processing, are never entered.",
     ["cis/data_io/ungridded_data.py", "cis/data_io/netcdf.py", "cis/data_io/hdf_sd.py", "cis/data_io/hdf_vd.py", "cis/data_io/hdf.py", "cis/data_io/products/"],
     [("lazy loading and caching of values", "LazyData.data, LazyData.retrieve_raw_data (cis/data_io/ungridded_data.py)"),
      ("removal of points with missing coordinates after the load", "UngriddedData._post_process (cis/data_io/ungridded_data.py)"),
      ("raw reads", "netcdf.get_data, hdf_sd.get_data, hdf_vd.get_data, HDF_SDS.get"),
      ("translation of memory exhaustion", "LazyData.data except MemoryError")],
     [("cached values", "None until loaded; afterwards the processed values", "LazyData._data, LazyData._data_flattened")],
     ["UngriddedData.data/.coords()/.data_flattened/.coords_flattened/.get_all_points()", "GriddedData.data"])

prop("D02", "Results do not depend on the order in which lazy parts are loaded",
     "For every order in which a data set's values, its coordinates, their flattened views, shapes, slices, copies and point views are first accessed, and for every order in which chunked gridded values are computed, the results are identical. Points lacking a coordinate value are removed consistently from the data and from every coordinate, and every flattened or point view always agrees with the current values after any sequence of time, unit and longitude conversions.",
     ["histories", "schedules"],
     "every sequence of first accesses and in-place conversions on ungridded and gridded data read from one or more files, and every order of evaluating lazily chunked reads",
     "Each test accesses one attribute of a fresh object in one fixed order; orders that mix cached views with later conversions, or coordinates before data, are not sampled.",
     ["cis/data_io/ungridded_data.py", "cis/data_io/Coord.py", "cis/data_io/gridded_data.py", "cis/data_io/hyperpoint_view.py"],
     [("lazy load triggers", "LazyData.data, UngriddedData.coords"), ("cache invalidation", "LazyData.data setter, Coord.convert_*, Coord.set_longitude_range, LazyData.convert_units"),
      ("missing-coordinate removal", "UngriddedData._post_process, UngriddedCoordinates._post_process")],
     [("flattened cache", "1-D view of the values", "LazyData._data_flattened")],
     ["data, data_flattened, coords_flattened, get_all_points, get_non_masked_points, __getitem__, copy, shape, size, count"])

prop("D03", "A save that reports success can be read back exactly",
     "If saving gridded or ungridded data (one variable or a list) returns without an error, then a fresh process reading that file gets the same values, missing-value mask, coordinates, units, names, per-variable attributes and history, whatever short writes, interrupted calls or earlier failed attempts occurred on the way. If the storage fails so that this cannot be honoured the save raises an error, the data in memory is unaffected, and a repeated save to the same path succeeds once the fault is gone.",
     ["fault_sequences", "histories", "inputs"],
     "every data set, every mix of short/interrupted/failed/out-of-space writes, opens, truncations and closes during a save, and every sequence of failed and successful saves to the same path",
     "Tests save small data to a healthy disk and mostly inspect the file in the same process; storage failure paths are never executed.",
     ["cis/data_io/write_netcdf.py", "cis/data_io/ungridded_data.py", "cis/data_io/gridded_data.py", "cis/data_io/products/products.py"],
     [("ungridded writer", "write_coordinate_list, add_data_to_file, __create_variable (cis/data_io/write_netcdf.py)"),
      ("gridded writer", "GriddedData.save_data, GriddedDataList.save_data"), ("reader of CIS output", "class cis (cis/data_io/products/products.py)")],
     observe=["save_data return/exception", "read_data/read_data_list in a fresh process"])

prop("D04", "An interrupted save never passes for a finished one",
     "If the process is killed or the storage fails at any point while an output is being saved, then reading the output path afterwards either fails, or yields the complete new data, or yields the complete earlier contents of that path; it never yields values, masks or coordinates that were not intended. Saving a data set onto the very file it is lazily read from never loses that data: after a failed save the original is still readable and after a successful one the file holds the data.",
     ["crash_points", "fault_sequences"],
     "every storage operation of a save at which the process may die (whole or torn write) or an error may be returned, with the output path absent or holding earlier output or the source data",
     "No test interrupts a save; the state of the file between two writes is never looked at.",
     ["cis/data_io/write_netcdf.py", "cis/data_io/ungridded_data.py", "cis/data_io/gridded_data.py"],
     [("order of writes and finishing step", "LazyData.save_data, UngriddedDataList.save_data, write_netcdf.*"), ("gridded save", "GriddedData.save_data, GriddedDataList.save_data"),
      ("recognition of finished CIS output", "cis.get_file_type_error (cis/data_io/products/products.py)")],
     observe=["the output path, read by a fresh process after the crash"])

prop("D05", "The command line never destroys files it was not told to replace",
     "An existing output file stays byte-for-byte unchanged unless replacing it was agreed to at the prompt with 'y', by the force option, or by the documented environment setting; declining, end of input or an interrupt at the prompt leaves everything unchanged. A command whose output names one of its own inputs, through any spelling of the path or any link, is refused, and input files are never modified by any command, whether it succeeds, fails or is interrupted.",
     ["histories", "fault_sequences", "configurations"],
     "every writing command, every spelling and link relation between output and inputs, every dialogue at the overwrite prompt including end of input and interrupts, and every fault while the command runs",
     "Tests check the parser's decision for single hand-picked cases and never run a command that fails afterwards; the bytes of the files are not compared.",
     ["cis/parse.py", "cis/cis_main.py"],
     [("overwrite decision", "_file_already_exists_and_no_overwrite (cis/parse.py)"), ("input/output identity", "_output_file_matches_an_input_file (cis/parse.py)"),
      ("output naming", "_validate_output_file, _split_output_if_includes_variable_name")],
     observe=["bytes of every file in the working directory before and after the command", "exit status"])

prop("D06", "The exit status of a command tells whether its result is complete",
     "A command exits with status zero only if the requested result was completely produced (the output file holds every requested variable with the values of an undisturbed run, or the whole listing or comparison was printed) or the user declined to overwrite; any failure, including memory exhaustion, storage errors, unreadable inputs and data products that raise, ends with a non-zero status and a message on the error stream. Being unable to write the log file never stops a command from working.",
     ["fault_sequences", "configurations"],
     "every command, every position of an I/O or allocation failure while it reads, computes or writes, and every state of the log file location",
     "Integration tests that run commands are on healthy disks with valid input and look only at successful results.",
     ["cis/cis_main.py", "cis/data_io/products/AProduct.py", "cis/parse.py"],
     [("error handling and exit", "main, __error_occurred (cis/cis_main.py)"), ("commands", "subset_cmd, aggregate_cmd, collapse_cmd, col_cmd, evaluate_cmd, stats_cmd, info_cmd, plot_cmd (cis/cis_main.py)"),
      ("wrapping of product errors", "get_data, get_coordinates, get_variables (cis/data_io/products/AProduct.py)")],
     observe=["exit status, standard error, output file"])

prop("D07", "File, variable and product resolution is reproducible",
     "The files selected by names, wildcards and directories are each used exactly once, in the order the user listed them and alphabetically within a wildcard or directory (hidden files, such as what an interrupted save leaves behind, are not among them), and the data they hold is joined in that order. The selected files, the variables matched by a wildcard and their order, the data product chosen (built in or plug-in) and the coordinates read are the same for every order in which the operating system lists directories and for every hash seed of the interpreter.",
     ["schedules", "configurations"],
     "every order in which directory listing and globbing return entries, every hash seed, every mixture of duplicated names, wildcards, directories and comma separated lists, and every set of plug-in files",
     "Tests run with one hash seed on a file system that lists in one order, so a dependence on either is invisible.",
     ["cis/data_io/data_reader.py", "cis/plugin.py", "cis/data_io/products/AProduct.py", "cis/data_io/products/gridded_NetCDF.py", "cis/parse.py", "cis/utils.py"],
     [("file list expansion", "expand_filelist (cis/data_io/data_reader.py), OrderedSet (cis/utils.py), expand_file_list (cis/parse.py)"), ("variable wildcards", "DataReader._expand_wildcards"),
      ("plug-in discovery", "find_plugins, find_plugin_classes, get_all_subclasses (cis/plugin.py)"), ("product choice", "__get_class (cis/data_io/products/AProduct.py)"),
      ("coordinate variable choice", "NetCDF_Gridded.create_coords")],
     observe=["expand_filelist result", "read_data/read_data_list/read_coords results", "product class", "order of variables"])

prop("D08", "History is an append-only record stamped with UTC times",
     "Every subset, aggregation, collapse, collocation and evaluation adds exactly one new entry, carrying the UTC time at which it ran in the form YYYY-MM-DDTHH:MM:SSZ, after the unmodified earlier history of the data it started from (where that history is carried over), naming the operation and its source files. Entries never disappear, change, repeat or move when the data is saved, reloaded and processed further, whatever the local time zone and however the clock jumps.",
     ["histories", "configurations", "schedules"],
     "every sequence of operations, saves and reloads, with the clock advancing, jumping backwards or forwards between any two steps and any local time zone",
     "Tests look for the presence of a history attribute after one operation with the real clock in one time zone.",
     ["cis/data_io/ungridded_data.py", "cis/data_io/gridded_data.py", "cis/subsetting/subset.py", "cis/collocation/col_implementations.py", "cis/collocation/col.py", "cis/aggregation/", "cis/evaluate.py", "cis/data_io/write_netcdf.py"],
     [("time-stamped append", "LazyData.add_history, GriddedData.add_history, CommonDataList.add_history"), ("per-operation entries", "subset, _aggregate_ungridded, _collapse_gridded, collocate, Calculator.evaluate"),
      ("persisting", "write_netcdf.__add_metadata, iris save")],
     observe=["metadata.history / attributes['history'] after each step and after reload"])

prop("D09", "A failed operation leaves its input data intact",
     "If an operation on loaded or lazily loaded data (subset, aggregation, collapse, collocation, arithmetic, slicing, copying, conversion to a data frame, unit conversion, change of longitude range, saving) fails because a read, write or allocation fails, then the data sets it was given still hold a consistent set of values, coordinates, attributes and history: either exactly what they held before or exactly what the completed operation would have left in them. Repeating the operation after the failure gives the same result as if nothing had failed.",
     ["fault_sequences", "histories"],
     "every operation, every position in it at which a read, write or allocation fails, and every number of failed attempts before success",
     "No test makes an operation fail half-way, so nothing checks what is left in the operands.",
     ["cis/data_io/gridded_data.py", "cis/data_io/ungridded_data.py", "cis/data_io/Coord.py", "cis/subsetting/subset.py", "cis/aggregation/gridded_collapsor.py", "cis/aggregation/ungridded_aggregator.py", "cis/collocation/col_implementations.py"],
     [("in-place longitude change", "GriddedData.set_longitude_range, UngriddedData.set_longitude_range"), ("subset", "cis/subsetting/subset.py"),
      ("operators", "UngriddedAggregator, GriddedCollapsor, collocators"), ("conversion in place", "LazyData.convert_units")],
     observe=["full state of every operand after the failed attempt and the result after a retry"])

prop("D10", "Independent sessions in one process do not affect each other",
     "When several callers each work on their own data sets in one process, the results each obtains (values, coordinates, metadata, file name records, history) are those it would obtain running alone, for every interleaving of their calls and of the steps inside the calls, and also when some of the callers' operations fail. Nothing done to one data set shows up in another that was read, created or copied independently.",
     ["schedules", "histories"],
     "every interleaving of the operations (and of the executed lines) of two or three callers with separate data, including failing operations",
     "Every test runs one operation sequence at a time; leaks through module- or class-level state need two independent data sets in a particular order.",
     ["cis/data_io/common_data.py", "cis/data_io/data_reader.py", "cis/data_io/ungridded_data.py", "cis/data_io/gridded_data.py", "cis/collocation/", "cis/aggregation/", "cis/subsetting/subset.py", "cis/evaluate.py"],
     [("file name record", "CommonData.filenames, CommonDataList.filenames, DataReader.read_data_list"), ("module state", "kernels, plugin import, warning filters (cis/utils.single_warnings_only)"), ("copies", "UngriddedData.copy, __getitem__, make_new_with_same_coordinates")],
     observe=["every attribute of each caller's data, compared with a solo run"])

prop("D11", "Batches and reused operators carry nothing over",
     "Processing several variables together (subset, aggregation, collapse, collocation, saving a list) gives for each of them what processing it alone gives, in any order of the list, even when the variables have different missing values. Using the same operator, constraint, kernel or reader again for other data, or again after a failure, gives what a fresh one gives.",
     ["histories", "schedules"],
     "every order of variables in a batch, every pattern of missing values, every sequence of uses of one operator object on different data with failures in between",
     "Tests use one fresh operator per case and lists whose members are copies of each other, so stale indices and caches cannot show.",
     ["cis/collocation/col_implementations.py", "cis/collocation/data_index.py", "cis/collocation/col.py", "cis/collocation/haversinedistancekdtreeindex.py", "cis/aggregation/ungridded_aggregator.py", "cis/aggregation/gridded_collapsor.py", "cis/subsetting/subset.py", "cis/evaluate.py", "cis/data_io/data_reader.py"],
     [("search index per variable", "GeneralUngriddedCollocator.collocate, create_indices_for_cubes, HaversineDistanceKDTreeIndex"), ("cached interpolator", "GriddedUngriddedCollocator"),
      ("batch collapse/aggregation", "GriddedCollapsor, UngriddedAggregator"), ("constraint state", "SepConstraintKdtree, BinnedCubeCellOnlyConstraint, *SubsetConstraint")],
     observe=["results of batch and reuse runs against single fresh runs"])

prop("D12", "Repeated and failing reads and writes do not exhaust file handles",
     "The number of open file handles after any number of completed or failed reads, listings and saves is bounded by the number of lazily loaded data sets still in use: handles opened by an operation that failed, by a listing or by a finished save are released, and data read from HDF4 and text files keeps no handle open between accesses. Reading or saving many files in one session therefore never fails because an earlier operation kept files open.",
     ["histories", "fault_sequences"],
     "every sequence of reads, metadata listings and saves, each of which may fail at any storage operation, followed by release of the results",
     "Tests open a few files each in a process that is then thrown away; handle counts are never examined and no open ever fails half-way.",
     ["cis/data_io/hdf_vd.py", "cis/data_io/hdf_sd.py", "cis/data_io/hdf.py", "cis/data_io/netcdf.py", "cis/data_io/write_netcdf.py", "cis/data_io/products/", "cis/data_io/aeronet.py"],
     [("HDF4 handles", "HDF_SDS._open_sds/_close_sds, hdf_vd.get_data, hdf_vd.get_metadata, hdf_vd.read"), ("NetCDF handles", "netcdf.read, get_netcdf_file_attributes, get_netcdf_file_variables"), ("writer handles", "write_coordinate_list, add_data_to_file")],
     observe=["number of open descriptors on data files after each step"])

prop("D13", "An interrupted and resumed analysis equals its reference definition",
     "In every sequence of load, subset, aggregate, collapse, collocate, arithmetic, evaluate, save and reload steps, where any step may fail on storage or memory and be repeated, the result of every step equals the step's plain definition applied point by point to the original values: a subset holds exactly the points inside the inclusive limits (on the circle for longitudes; for grid cells with bounds, the cells which touch them), an aggregation cell the statistic of exactly the non-missing points in it, a box collocation the kernel of exactly the points within every separation, a nearest or linear collocation the nearest or linearly interpolated grid value, and a collapse the statistic over the collapsed dimensions. Missing values stay missing and never enter a statistic, and coordinates, units and names are carried to the result.",
     ["histories", "fault_sequences", "inputs"],
     "every sequence of analysis steps over generated data with missing values, wrapped longitudes and duplicated or boundary positions, saved and reloaded at any step, with transient failures repeated",
     "Tests check single steps on a handful of fixed grids; chained steps, reloads in between and repeated attempts are not sampled.",
     ["cis/subsetting/subset.py", "cis/aggregation/", "cis/collocation/", "cis/maths.py", "cis/evaluate.py", "cis/data_io/", "cis/utils.py"],
     [("subset", "cis/subsetting/subset.py"), ("aggregation", "UngriddedAggregator, col_implementations kernels"), ("collapse", "GriddedCollapsor, collapse_kernels"),
      ("collocation", "GeneralUngriddedCollocator, GriddedUngriddedCollocator, GeneralGriddedCollocator, GriddedCollocator"), ("arithmetic", "cis/maths.py, Calculator")],
     observe=["values, mask and coordinates of every intermediate and saved result"])

prop("D14", "A fault never makes data be read as something else",
     "Transient open or read failures while CIS works out what a file contains are reported and never make it choose a different data product, a different or shorter list of variables, or a different set of coordinates than it would choose without them. A plug-in directory that is missing, unreadable or whose files change between calls never changes how files are read that only the built-in products recognise.",
     ["fault_sequences", "configurations"],
     "every storage operation during file identification, variable listing and coordinate discovery at which a failure may be injected, and every state of the plug-in directory between calls",
     "Identification is tested on healthy files only, and the plug-in tests import one fixed directory.",
     ["cis/data_io/products/AProduct.py", "cis/data_io/products/products.py", "cis/data_io/products/CCI.py", "cis/data_io/products/NCAR_NetCDF_RAF.py", "cis/data_io/products/gridded_NetCDF.py", "cis/data_io/hdf_sd.py", "cis/data_io/hdf_vd.py", "cis/data_io/hdf.py", "cis/plugin.py", "cis/data_io/data_reader.py"],
     [("product choice", "__get_class, get_file_type_error"), ("variable listing", "get_variables, get_hdf_SD_file_variables, get_hdf_VD_file_variables, get_netcdf_file_variables"), ("coordinate discovery", "create_coords of each product"), ("plug-ins", "find_plugins")],
     observe=["chosen product, variable lists, coordinates and values under faults"])

# ---- pure functions of their input: stated for completeness, not decidable by simulation -----------------------------
prop("D20", "Times survive conversion to and from the internal standard time",
     "Converting any supported time representation (calendar date, Julian date, seconds since a reference, any CF time unit) to the standard time and back returns the same instant to within rounding, preserving missing values and order.",
     ["inputs"], "every representable time value, unit and calendar", "Tests try a handful of dates.",
     ["cis/time_util.py", "cis/parse_datetime.py"], [("conversions", "cis/time_util.py")])
prop("D21", "Command lines are parsed according to the documented grammar",
     "Every command line built from the documented grammar is parsed into exactly the variables, files, options, limits and grids it spells, and every other one is refused with a message.",
     ["inputs"], "every string of the documented grammar and every string outside it", "Tests enumerate examples.",
     ["cis/parse.py", "cis/parse_datetime.py"], [("parsers", "cis/parse.py")])
prop("D22", "Evaluated expressions can only compute",
     "An evaluated expression can use the named variables and the documented mathematics only; no expression text reaches the file system, the interpreter's internals or other data.",
     ["inputs"], "every expression text", "Tests try a few forbidden names.",
     ["cis/evaluate.py"], [("restricted evaluation", "Calculator._evaluate, SafeCalculator")])
prop("D23", "Statistics of a comparison equal their textbook formulas",
     "Every reported statistic of a two-variable comparison equals its formula over exactly the points valid in both variables.",
     ["inputs"], "every pair of equally shaped variables", "Tests use a few arrays.",
     ["cis/stats.py"], [("statistics", "StatsAnalyzer")])
prop("D24", "Plots show the data they are given",
     "Every plot draws exactly the non-missing values at their coordinates on the chosen axes, with the requested ranges, labels and projection.",
     ["inputs"], "every plot type and option combination", "Tests compare a few images or none.",
     ["cis/plotting/"], [("plots", "cis/plotting/")])
prop("D25", "Great-circle and polygon geometry is exact up to rounding",
     "The distance used for neighbour search equals the great-circle distance for every pair of positions (poles and date line included), neighbour search returns exactly the nearest points, and a polygon subset keeps exactly the points inside it.",
     ["inputs"], "every pair of positions and every polygon", "Tests use a few positions.",
     ["cis/utils.py", "cis/collocation/kdtree.py", "cis/collocation/haversinedistancekdtreeindex.py", "cis/subsetting/subset.py"],
     [("haversine", "cis/utils.haversine"), ("tree", "cis/collocation/kdtree.py")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
