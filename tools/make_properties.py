"""Regenerates /verif/properties.jsonl (one JSON object per line)."""
import json, os
S = "src/earthkit/regrid/"
P = []
def add(id, title, statement, over, qtext, why, files, mech, state=(), obs=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[S+f for f in files],
            state=[dict(name=n, meaning=m, where=S+w) for n, m, w in state],
            mechanism=[dict(name=n, where=S+w) for n, w in mech],
            observe_at=list(obs), hook_needed=None)))

add("C01", "Precomputed regridding applies exactly the inventory's weights",
 "Regridding an array with the precomputed backend returns the weight matrix of the selected inventory entry multiplied by the flattened input values, reshaped to that entry's output shape, together with the requested output grid. The weights are read from the file the inventory describes for that entry (directory named engine_version_method, file named after the entry). The caller's array and grid descriptions are left unmodified.",
 ["inputs"], "all value arrays of any shape and dtype, all weight matrices, all inventory entries, all requested grids and methods",
 "Tests compare 17 stored matrices with stored results on one field each; nothing quantifies over values, shapes, matrices or inventory layouts, and nothing looks at the arguments afterwards.",
 ["backends/precomputed.py", "backends/db.py", "data/numpy.py", "array/regrid.py"],
 [("MatrixBackend.regrid / interpolate", "backends/precomputed.py"), ("MatrixDb.find, _create_matrix*, load_matrix, _matrix_fs_path; MatrixIndex.matrix_path", "backends/db.py")],
 obs=["earthkit.regrid.array.regrid(..., backend='precomputed')"])
add("C02", "Weights are selected for exactly the request, never substituted",
 "A request selects the first inventory entry, in inventory order, whose input grid, output grid and interpolation method all equal the requested ones ('nn' and 'nearest-neighbor' mean 'nearest-neighbour', nothing else is aliased), and selects nothing when there is none. When nothing is selected regridding raises ValueError and returns no data.",
 ["inputs", "configurations"], "all inventories (any number and order of entries) and all requests",
 "Tests probe a fixed 17-entry index with a handful of hits and misses; the claim is over arbitrary inventories, including those with several entries differing in one attribute only.",
 ["backends/db.py", "backends/precomputed.py"],
 [("MatrixIndex.find / match / interpolation_method_name", "backends/db.py"), ("MatrixDb.find_entry, _method_alias", "backends/db.py"), ("not-found branch", "backends/precomputed.py")],
 obs=["MatrixDb.find_entry", "array.regrid"])
add("C03", "Grid equality identifies only equivalent grids",
 "Two grid specifications compare equal exactly when they have the same type, the same grid (names ignoring case; regular increments within 1e-6), the same three scanning flags, the same shape whenever both give one, the same HEALPix ordering, and, for regular and reduced Gaussian grids, the same area within tolerance (1e-8, resp. 0.12 degrees) or both global coverage with the same western longitude once normalised to [0, 360) (and, for regular grids, the same north and south). The comparison is symmetric and independent of how often or in what order it is evaluated.",
 ["inputs"], "all pairs of supported grid specifications, with arbitrary real increments, areas and longitudes",
 "Tests list about 60 literal pairs; the tolerance bands, longitude wrap-around, cached global flags and optional keys span a continuum they sample at round numbers.",
 ["gridspec.py"],
 [("GridSpec.__eq__/compare_key/same_area", "gridspec.py"), ("LLGridSpec.__eq__, ReducedGGGridSpec.__eq__, HealpixGridSpec.__eq__", "gridspec.py"), ("normalise_lon, is_global_ew, is_global_ns", "gridspec.py")],
 state=[("_global_ew/_global_ns", "lazily cached global coverage flags", "gridspec.py")], obs=["GridSpec.from_dict(a) == GridSpec.from_dict(b)"])
add("C04", "Grid specifications are canonicalised without touching the caller's dict",
 "Building a grid specification from a dictionary keeps every given key, turns tuples into lists, fills in only missing defaults (scan flags 0, global area), infers the type from the grid when it is not given (two-element list: regular; O/N + number: reduced Gaussian; H + number: HEALPix; [e]ORCAnnn_F/T/U/V: ORCA), renames the legacy 'ordering' key to 'order', and rejects every other grid given without a type, and every unknown type, with ValueError. The caller's dictionary is never modified, canonicalising a canonical specification changes nothing, and a HEALPix ordering other than ring or nested or a grid number outside 1..1000000 is refused when first used.",
 ["inputs"], "all gridspec dictionaries (any subset of keys, any grid names and numbers, list or tuple values)",
 "Tests cover a few dozen literals and never look at the argument afterwards, at idempotence, or at the full set of names and boundary numbers.",
 ["gridspec.py"], [("GridSpec.from_dict, _normalise, _infer_spec_type", "gridspec.py"), ("type_match and constructors of the four grid classes; _inspect_grid", "gridspec.py")],
 obs=["GridSpec.from_dict"])
add("C05", "Longitude normalisation and global coverage detection",
 "Normalising a longitude returns the unique value congruent to it modulo 360 inside [minimum, minimum+360). A regular or reduced Gaussian grid counts as covering all longitudes exactly when it is flagged global, has the default area, or its west-east extent (east taken at or after west) differs by less than 1e-8 from 0, from 360, or from 360 minus one increment.",
 ["inputs"], "all real longitudes, minimums, areas and increments",
 "The normalisation is an unbounded loop over real numbers; tests call it with a dozen values.",
 ["gridspec.py"], [("GridSpec.normalise_lon", "gridspec.py"), ("LLGridSpec.is_global_ew, ReducedGGGridSpec.is_global_ew, dx", "gridspec.py")], obs=["GridSpec.normalise_lon", "is_global_ew"])
add("C06", "In-memory weights cache: accounting and memory bound under any schedule",
 "Whenever no cache operation is in progress, the reported current size equals the sum of the sizes of the cached matrices and the reported count equals their number; with the 'lru' and 'largest' policies it never exceeds the configured maximum, and with 'off' the cache is empty. This holds for any interleaving of lookups, settings changes, clears and statistics queries in any number of threads, also when loading a matrix fails; no operation blocks itself.",
 ["schedules", "histories", "inputs"], "all sequences and thread interleavings of get/update/clear/info, all matrix sizes and estimates, all limits and policies, loader failures at any call",
 "Tests run single-threaded scripts with four matrices and fixed limits; accounting after failures, policy switches and concurrent access is never examined.",
 ["utils/memcache.py"], [("MemoryCache.get/_reduce/clear/info/update under one lock", "utils/memcache.py"), ("LRUPolicy.reduce, LargestPolicy.reduce, UnlimitedPolicy.reduce, NoPolicy.reduce", "utils/memcache.py")],
 state=[("items/curr_mem/hits/misses/max_mem/policy", "cache content and accounting, protected by lock", "utils/memcache.py")], obs=["memory_cache_info()"])
add("C07", "The in-memory cache never changes a result",
 "Looking up weights through the in-memory cache yields the same matrix and output shape as loading them afresh for the same inventory, input grid, output grid and method, whatever was looked up before, from whichever inventory, and under whichever policy. A hit loads nothing from disk, and a failed lookup is never remembered as a result.",
 ["histories", "inputs", "configurations"], "all histories of lookups over any number of inventories, grids, methods and policy changes",
 "Tests use one inventory and distinct grids, so a key that omits part of the request goes unnoticed.",
 ["utils/memcache.py", "utils/hash.py", "backends/db.py"], [("cache key", "utils/memcache.py"), ("make_sha", "utils/hash.py"), ("MatrixDb.find", "backends/db.py")],
 state=[("items", "key -> (data, size, last)", "utils/memcache.py")], obs=["array.regrid with two inventories", "memory_cache_info()"])
add("C08", "Eviction order, minimality and strict mode of the in-memory cache",
 "'lru' evicts in order of least recent use and 'largest' evicts the largest matrices first; either stops as soon as the remaining total is below the size aimed at, so no matrix is evicted needlessly, and 'unlimited' evicts nothing. In strict mode a matrix whose estimated size does not fit in the available memory after eviction is refused with ValueError and not loaded; in non-strict mode it is still returned to the caller.",
 ["inputs", "histories"], "all cache contents, sizes, orders of use, limits and estimates",
 "Tests check eviction of at most two of four known matrices at hand-picked limits.",
 ["utils/memcache.py"], [("LRUPolicy.reduce, LargestPolicy.reduce", "utils/memcache.py"), ("MemoryCache._create_with_pre_check, _capacity, estimate_matrix_size, get", "utils/memcache.py")],
 obs=["memory_cache_info()", "array.regrid"])
add("C09", "Settings changes reach the in-memory cache immediately",
 "After any change of the settings (including entering and leaving a temporary settings block) the in-memory cache uses the new policy, maximum size and strict flag, shrinks at once to satisfy them, and keeps its contents when nothing relevant changed. A size limit of zero or none with a limited policy is refused with ValueError.",
 ["configurations", "histories"], "all combinations of old and new policy, limit and strict flag, and all cache contents",
 "Tests make five hand-written transitions; the claim covers all pairs of configurations with arbitrary content.",
 ["utils/memcache.py", "utils/config.py"], [("MemoryCache.update, _reduce", "utils/memcache.py"), ("policy check methods", "utils/memcache.py"), ("Config._notify", "utils/config.py")], obs=["memory_cache_info() after config.set"])
add("C10", "Disk cache files are published atomically",
 "A file obtained from the disk cache exists under its final name only with complete contents: at every point at which the process may stop or the creator may fail, the final name either does not exist or holds the fully created (old or new) file. A present file is reused without being recreated unless recreation is forced, concurrent requesters of the same file create it once, and a failed creation raises to the requester and can be retried.",
 ["crash_points", "fault_sequences", "schedules"], "all crash points and creator failures inside a cached creation, all policies, all force decisions, concurrent creation by another process at any point",
 "Tests create a cached file on the happy path only; no test interrupts a creation or lets another process win the race.",
 ["utils/caching.py"], [("cache_file: lock, re-check, create to a temporary name, rename", "utils/caching.py")], obs=["cache directory contents"])
add("C11", "Disk cache path identity and containment",
 "With a managed policy the path of a cached file is a function of exactly owner, arguments (in their JSON form: the order of dictionary keys does not matter, a tuple counts as a list), extra hash and extension: requests differing in any of these get different paths, equal requests the same path, always directly inside the cache directory (owners and extensions containing no path separator). The directory is the one the settings in force name: the user cache directory, or a new directory under the temporary cache directory root, or with the cache off a new one under the temporary directory root. The cache never registers, completes or deletes anything that is not inside its directory.",
 ["inputs", "configurations"], "all owners, arguments, extensions, directories and path strings including sibling prefixes and '..' components",
 "Tests use one or two arguments and in-directory paths; containment is about all path strings.",
 ["utils/caching.py"], [("cache_file key and path construction", "utils/caching.py"), ("file_in_cache_directory, _ensure_in_cache, _delete_file, _register_cache_file, _update_entry", "utils/caching.py")], obs=["returned paths", "AssertionError on foreign paths"])
add("C12", "Disk cache trimming frees enough, oldest first, and spares what it must",
 "After a size check with a configured limit (total size or disk usage), the registered total is within the limit or nothing evictable is left; entries are removed orphans first, then least recently accessed first, together with their children, and removal stops as soon as the bytes of the removed entries whose files were there cover what had to be freed. A size check never removes, except as the child of a removed entry, an entry still being created or one not older than the oldest entry being created, nor (when none is being created) the newest entry on the register, and within the limit it removes nothing. A purge leaves no completed entry that holds bytes, or with a matcher removes exactly the matching entries and their children. The size on the register is that of the file, or the sum of all the files below a directory. Every removed entry loses both its file and its record; files of the directory that are not registered and were written within the last two minutes are left alone.",
 ["histories", "inputs"], "all registers of entries (any sizes, owners, dates, children, missing files) and all limits",
 "Tests check one eviction of equal-sized files; order, early stop, in-progress entries, children and lost files are never combined.",
 ["utils/caching.py"], [("CacheManager._check_cache_size, _decache, _latest_date, _delete_entry, _delete_file, _cache_size, _housekeeping, _update_cache", "utils/caching.py")],
 state=[("cache table", "register of cache files", "utils/caching.py")], obs=["cache.entries()", "cache.size()", "cache directory"])
add("C13", "Setting lookup precedence and validation",
 "Reading a setting returns the value of its environment variable if set, else the value set or loaded, else the default, interpreted by the setting's own parser; an unknown name raises KeyError for reading, setting and resetting. Setting an ill-formed value raises and leaves the previous value in force, setting one setting leaves all others unchanged, and reset restores defaults.",
 ["inputs", "configurations", "histories"], "all setting names, values and environment contents, all sequences of set/reset/get",
 "Tests set a few known settings to good values and two bad ones; precedence and non-interference over all names and values is not quantified.",
 ["utils/config.py"], [("Config.get/set/_set/reset/_env", "utils/config.py"), ("ConfigOption.validate, validators", "utils/config.py")], state=[("_config", "current values", "utils/config.py")], obs=["config.get/set/reset"])
add("C14", "Temporary settings are scoped",
 "Settings changed in a temporary block are visible inside it (to any nesting depth) and vanish when it is left in any way (normally, by exception, or because an observer rejected them), restoring exactly the values before it. The saved configuration file is never affected by a temporary block, and every observer is notified after each change of the effective settings.",
 ["histories", "fault_sequences"], "all nestings of temporary blocks, all exits including exceptions from the block and from observers",
 "Tests nest two blocks with one exception; failing observers and general nesting are not covered.",
 ["utils/config.py"], [("Config.temporary, new_config, forward, _notify, _changed", "utils/config.py")], state=[("_stack", "stack of temporary configurations", "utils/config.py")], obs=["config.get inside/after", "config file"])
add("C15", "Sizes, percentages and durations are parsed exactly",
 "A byte size 'n' or 'n<unit>' means n times 1024 to the power 1..5 for K,M,G,T,P in either case, a duration n times 1, 60, 3600, 86400 or 604800 for s,m,h,d,w, and a percentage exactly n; surrounding blanks are ignored and only the unit's first letter matters. Anything else, including negative numbers, fractions and unknown units, raises ValueError, and None is accepted only where declared.",
 ["inputs"], "all strings, integers and None",
 "Tests parse about ten literals.",
 ["utils/humanize.py", "utils/config.py"], [("as_number, as_bytes, as_seconds, as_percent", "utils/humanize.py")], obs=["as_bytes", "as_seconds", "as_percent", "config.get"])
add("C16", "Saved settings reload to the same values",
 "Saving the settings to a file and loading that file gives back every setting with the value it had, for every combination of valid values, and loading a missing, malformed or non-mapping file falls back to defaults without failing. Every change of a setting outside a temporary block is saved automatically unless auto-saving is off.",
 ["inputs", "configurations"], "all combinations of valid setting values and all file contents",
 "Tests save one or two settings and read the text back.",
 ["utils/config.py"], [("save_config, ConfigOption.save, _init_config, Config._save/_changed", "utils/config.py")], obs=["config file", "config.get after reload"])
add("C17", "Backends and data handlers are dispatched faithfully",
 "Asking for a backend returns an instance of the backend registered under that name constructed with exactly the given arguments, the same instance for the same name and arguments and a different one when they differ; an unknown name raises ValueError. The top-level regrid hands the data to the handler matching its type with every option unchanged, rejects unsupported types with ValueError, and never modifies the caller's keyword options.",
 ["inputs", "histories"], "all backend names, constructor arguments, request histories and keyword options",
 "Tests request two backends with one inventory each; memoisation across different arguments is not examined.",
 ["backends/__init__.py", "backends/precomputed.py", "regrid.py", "array/regrid.py", "data/__init__.py", "data/handler.py", "data/numpy.py", "data/grib.py"],
 [("BackendMaker.__call__, _make_key", "backends/__init__.py"), ("MatrixBackend.get_db", "backends/precomputed.py"), ("regrid, get_data_handler, DataHandler.backend_from_kwargs", "regrid.py")], state=[("BACKEND_OBJECTS", "memo of constructed backends", "backends/__init__.py")], obs=["get_backend", "regrid"])
add("C18", "The deprecated interpolate gives the same result as regrid",
 "For every array and grid pair the deprecated interpolate function returns the same values as regrid with the precomputed backend on the same inventory, and raises ValueError where regrid does; for a field list it gives the fields regrid gives, from the input grid given or else each field's own. A backend argument is refused.",
 ["inputs"], "all arrays, field lists, grids, methods and inventories",
 "Each function has its own tests on fixed cases; their agreement is only checked where both happen to be tested.",
 ["interpolate.py", "data_interpolate.py", "backends/precomputed.py"], [("interpolate, NumpyDataHandler.interpolate, FieldListDataHandler.interpolate", "data_interpolate.py"), ("MatrixBackend.interpolate", "backends/precomputed.py")], obs=["interpolate", "array.regrid"])
add("C19", "Field lists and xarray objects are regridded element by element",
 "Regridding a field list returns one field per input field, in order, each holding the regridded values of the corresponding input using that field's own grid (or message) and the requested output grid, with its own other metadata; a single field gives a single field. Regridding an xarray array, or every variable of a data set, regrids every horizontal slice independently with the input and output grid given, puts the horizontal dimensions of the target in place of those of the source after the other dimensions, and keeps the others in order; floats keep their type and other numbers come back as floats, not cut off. Field lists on the precomputed backend accept only regular lat-lon targets and raise ValueError for targets of any other kind, a field without a grid or of an unknown kind is refused, and inputs and options are not modified.",
 ["inputs"], "all field lists (any length, mixed grids) and all arrays of any extra dimensions and dtype",
 "The field list and xarray code is not exercised by any test that runs offline.",
 ["data/fieldlist.py", "data/xarray.py", "data_interpolate.py"], [("FieldListDataHandler._regrid_array/_regrid_grib, FieldDataHandler.regrid", "data/fieldlist.py"), ("XarrayDataHandler.regrid", "data/xarray.py")], obs=["regrid(fieldlist)", "regrid(DataArray)"])
add("C20", "Options reach MIR unchanged",
 "With the MIR backend the values, input grid, output grid (without any area), interpolation method and nearest-neighbour options are passed on exactly as given, for arrays as for messages (distances as floating point numbers, and the nearest method 'automatic' as no choice, which is how MIR takes them), an area is passed as north/west/south/east text whether given as text, list or tuple and anything else is refused with ValueError; the array or message MIR produces is returned unchanged. The caller's grid dictionary and options are not modified.",
 ["inputs"], "all grids, areas, methods and options",
 "Tests compare a few MIR results with references; option passing and argument purity are not checked.",
 ["backends/mir.py"], [("MirBackend.regrid, regrid_grib, adjust_options, normalise_area", "backends/mir.py")], obs=["calls on mir.Job"])
add("C21", "The binary stream codec and MIR matrix decoding are exact",
 "Reading what was written with the eckit stream codec gives the written values back in order for every readable type, a mismatched or unknown tag raises, and a value that cannot be represented is refused rather than truncated. Decoding a MIR weight matrix yields exactly the encoded rows, columns and entries for both byte orders and both precisions.",
 ["inputs"], "all sequences of writes, all integers in range, all strings, all matrices and endianness/precision combinations",
 "No test touches the stream codec; matrices are read only through MIR's own cache in one format.",
 ["utils/stream.py", "utils/mir.py"], [("Stream.read_*/write_*/read_tag", "utils/stream.py"), ("mir_cached_matrix_to_array, dtype_uint, dtype_float, mir_write_latlon_to_griddef", "utils/mir.py")], obs=["Stream", "mir_cached_matrix_to_array"])
add("C22", "Inventories that are built can be read back and found",
 "A matrix added to an inventory by the builder is found again, when no earlier entry has equal grids and the same method, by a request with the grids and method it was built from, at the file path the builder wrote, with the same weights and the recorded memory size equal to that of the stored matrix. Adding a matrix keeps all other entries already in the inventory, in their order; matrices whose descriptions (input grid, output grid, interpolation) differ never share a name, equal ones do; and an index of another version is refused with ValueError and left as it is.",
 ["inputs", "histories"], "all builder entries (grid types, increments, boxes, flags, methods as text or dictionary) and any existing inventory",
 "No test runs the builder.",
 ["utils/builder.py", "backends/db.py", "utils/mir.py", "utils/matrix.py"], [("make_matrix, regular_ll, reduced_gg, healpix, orca, make_sha", "utils/builder.py"), ("MatrixIndex.matrix_dir_name, matrix_path, make_interpolation_uid, load", "backends/db.py"), ("matrix_memory_size", "utils/matrix.py")], obs=["index.json", "MatrixDb.find after make_matrix"])
add("C23", "Loading an inventory keeps every supported entry and tolerates the rest",
 "Loading an index keeps exactly the entries whose input and output grids are supported, under their names and in order, with their other attributes and the raw record unchanged; unsupported entries are skipped without affecting the others. An index of a different version is refused with ValueError every time the inventory is used, never taken for an empty one; a subset contains exactly the entries its filters select, and exporting a loaded inventory reproduces the raw records.",
 ["inputs"], "all index files with any mix of supported and unsupported entries and all filters",
 "Tests load three fixed index files.",
 ["backends/db.py"], [("MatrixIndex.load, subset, to_raw", "backends/db.py"), ("MatrixDb.index, _load_index, subset_index", "backends/db.py")], obs=["MatrixDb.index", "to_raw"])
add("C24", "A remote inventory is refreshed when needed and only then",
 "When a request finds nothing in the index in use of a remote inventory that was not checked before, the remote checksum is asked for exactly when a checksum is known for the cached copy; the index is downloaded again exactly when the cached copy's checksum is unknown or differs (or the copy is gone), and the request is answered from the refreshed index. After that, further misses cause no more remote checks until the inventory is reset; a hit causes none, a failed check is reported and made again at the next miss, and a local inventory is never checked or re-read.",
 ["histories", "inputs"], "all sequences of requests and all cached/remote checksum combinations",
 "Tests for the remote path need the network and are skipped offline.",
 ["backends/db.py"], [("MatrixDb.find_entry", "backends/db.py"), ("UrlAccessor.reload/_get_index/_remote_sha/index_path/checked_remote; LocalAccessor", "backends/db.py")], state=[("_checked_remote", "remote checksum already consulted", "backends/db.py")], obs=["number of remote checks and downloads"])
add("C25", "Disk cache requests are executed once, in order, and answered",
 "Every request handed to the cache manager is executed exactly once, in the order of submission, and its submitter receives exactly its own result or its exception; a request that fails (raises an Exception) does not prevent later ones from being executed and answered.",
 ["schedules", "fault_sequences"], "all sequences and interleavings of requests and failures",
 "Tests issue requests one at a time and only successful ones.",
 ["utils/caching.py"], [("Future.execute/result, CacheManager.enqueue/run, Cache._call_manager", "utils/caching.py")], state=[("_queue", "pending requests, protected by _condition", "utils/caching.py")], obs=["results of cache operations"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
