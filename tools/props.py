#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []

def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "state": state or [],
                    "mechanism": [{"name": a, "where": b} for a, b in mech],
                    "observe_at": observe or [], "hook_needed": None}})

p("C01", "API findings belong to the right package under every response order",
  "When packages are checked against an OSV API, every package is reported with exactly the advisories the API returned for that package (right ids, right details, nothing lost, added, duplicated or moved to a neighbour), for every batch size, every number of batches and every order in which the concurrent requests are answered. The concurrent requests share no memory without synchronisation.",
  ["schedules", "inputs", "configurations"],
  "every package list, batch size, interleaving of concurrent batch and detail requests, and order and chunking of their responses",
  "The tests use one or two packages against an httptest server that answers at once; the completion order of concurrent batches and detail fetches is whatever the machine does, never chosen.",
  ["pkg/database/api-check.go", "pkg/database/api-fetch-all.go", "pkg/database/api-fetch.go"],
  [("indexed result slots per batch and per id; errgroup.Wait before use", "APIDB.Check, APIDB.FetchAll"), ("results re-attached by id", "findOrDefault")],
  [{"name": "batchResults", "meaning": "ids per package per batch", "where": "APIDB.Check"}],
  ["--json output of a run"])

p("C02", "A failed or bogus advisory-detail fetch never hides a finding",
  "If fetching an advisory's details from the API fails in any way (connection error, error status, cut-off or malformed body, details of a different advisory), the affected packages are still reported with that advisory's id, the exit status still counts it, and the details shown for every other advisory are those of that advisory. An advisory is never shown with another advisory's details.",
  ["fault_sequences", "schedules"],
  "every subset of detail requests failing in every way, in every completion order",
  "The tests fail a detail request with one 403 and one HTML body; transport errors, cut-off bodies, wrong-id bodies, and failures mixed with reordering are not exercised.",
  ["pkg/database/api-fetch-all.go", "pkg/database/api-fetch.go", "pkg/database/api-check.go"],
  [("per-id default when the fetch failed", "findOrDefault in APIDB.Check")], None, ["--json output of a run"])

p("C03", "A failed API batch is loud and never yields a partial or shifted result",
  "If any batch request of a lockfile's check against an API fails (transport error, non-200 status, cut-off or malformed body, fewer or more results than packages asked for), that API contributes no findings at all for that lockfile, the failure is reported on stderr naming the lockfile and the exit status is non-zero. Findings of the other databases for that lockfile, and all findings for other lockfiles whose requests succeeded, are unaffected.",
  ["fault_sequences", "schedules", "configurations"],
  "every fault on every batch request, with any number of batches, lockfiles and databases",
  "The tests cover a non-200, an HTML body and a short result list for a single request; no transport faults, no several-batch failures, no interaction with other databases or lockfiles.",
  ["pkg/database/api-check.go", "main.go"],
  [("error aborts the API's whole contribution", "APIDB.Check"), ("error printed, other databases continue", "OSVDatabases.check")], None, ["stdout JSON, stderr, exit status"])

p("C04", "An online archive database uses exactly the archive the server designates",
  "In every online run, the findings from an archive (zip) database are exactly those of the archive the server designated in that run: the body of its complete 200 response, or, on a 304, the cached archive that the 304 vouches for - after any history of earlier runs, republished archives, validators present or missing, and cache-file I/O faults. Otherwise the database is reported as failed and the exit status is non-zero; a stale archive, another database's archive or a partial one is never used. Trouble with the cache file alone never makes an online run fail.",
  ["histories", "fault_sequences", "configurations"],
  "every sequence of runs, publications, validator styles (ETag, Date, both, neither), cache faults and server answers",
  "The tests do one or two loads against a local server and overwrite the cache by hand; they never follow a history of publications and faults.",
  ["pkg/database/zip.go"],
  [("conditional request with the cached validators", "ZipDB.fetchZip"), ("cache keyed by archive url", "ZipDB.cachePath")],
  [{"name": "cache file", "meaning": "last archive with its validators", "where": "os.TempDir()/osv-detector-<sha256>-db.json"}], ["--json output, exit status, cache file"])

p("C05", "A failed or bogus download never damages the cached copy",
  "If a download fails, is cut off, answers an error status or is not an archive at all, or if saving the new copy fails at any point (write errors, full disk), the previously cached copy stays usable: an immediate --offline run still gives the findings of the last good archive. As soon as the faults stop, the first online run succeeds with the server's current archive.",
  ["fault_sequences", "histories"],
  "every fault on the download and on every file operation of the cache update, followed by offline and online runs",
  "The tests check one unexpected status; they never look at the cache after a failure, and never fail the cache write.",
  ["pkg/database/zip.go"],
  [("cache written only after a complete 200", "ZipDB.fetchZip")],
  [{"name": "cache file", "meaning": "last archive with its validators", "where": "os.TempDir()/osv-detector-<sha256>-db.json"}], ["later --offline and online runs"])

p("C06", "A damaged cache file is treated as absent, and a crash cannot tear it",
  "A cache file that is truncated, empty, torn, null or not valid is treated as if there were none: an online run downloads the full archive and succeeds, an --offline run reports the database as unavailable with a non-zero status; neither crashes or uses part of it. If the process is killed at any point of a run, the next run behaves as if the cache held the old copy, the new copy or, when there was none before, nothing.",
  ["crash_points", "histories", "inputs"],
  "every truncation or corruption of the cache file and every kill point during a run that updates it",
  "One test puts a non-JSON cache in place; kill points, torn writes and partially decodable caches are not exercised.",
  ["pkg/database/zip.go"],
  [("decode error means no cache", "ZipDB.fetchZip")],
  [{"name": "cache file", "meaning": "last archive with its validators", "where": "os.TempDir()/osv-detector-<sha256>-db.json"}], ["exit status, --json output of the following run"])

p("C07", "--offline never touches the network and uses exactly the cached copy",
  "With --offline no network request is ever made, whatever the lockfiles, configs and databases; each archive database gives the findings of the last archive that was cached for it, and local directory databases work as usual. A database with no usable local copy, and any API database, is reported as failed and the exit status is 127.",
  ["histories", "configurations", "fault_sequences"],
  "every history of online runs before the offline run, every mix of databases and flags",
  "The tests check offline for single databases with a hand-made cache; the command as a whole, after histories and with mixed databases, is not observed for network silence.",
  ["pkg/database/zip.go", "pkg/database/api.go", "main.go"],
  [("early return before any request", "ZipDB.fetchZip"), ("constructor refuses", "NewAPIDB")], None, ["request log of the simulated network; stdout JSON; exit status"])

p("C08", "Concurrent runs sharing the cache do not disturb each other",
  "Several runs executing at the same time and sharing the cache directory each give exactly the result they would give alone against what the server designated to them (or what was cached before or during the run, when offline), whatever the interleaving of their file and network operations and whichever of them is killed. Afterwards the cache holds one complete copy that some run saved.",
  ["schedules", "crash_points", "histories"],
  "every interleaving of the file-system and network operations of 2-3 runs, with kills",
  "No test runs two instances against one cache; the interleaving of file operations cannot be chosen in a unit test.",
  ["pkg/database/zip.go"],
  [("cache replaced as a whole", "ZipDB.fetchZip")], None, ["each run's output; later offline run"])

p("C09", "Updating config ignores is all-or-nothing, exact and loud on failure",
  "--update-config-ignores leaves each config either exactly as it was or rewritten with ignore set to the sorted, duplicate-free ids of every advisory found (ignored or not) for all lockfiles using that config, with every extra-databases entry preserved. This holds if the process is killed or the machine loses power at any point and if any file operation fails; when a config could not be updated this is reported on stderr with a non-zero exit status, and never by leaving it empty, truncated or unparsable.",
  ["crash_points", "fault_sequences", "inputs"],
  "every kill point and disk fault during the update, every set of lockfiles, configs and findings",
  "The tests update healthy files on a healthy disk and look only at the final content.",
  ["internal/configer/update.go", "main.go"],
  [("read-modify-write of the config", "configer.UpdateWithIgnores"), ("ids collected per config path", "run, writeUpdatedConfigs")],
  [{"name": "config file", "meaning": "user's ignores and databases", "where": ".osv-detector.yml/.yaml or --config path"}], ["config file content after the run, stderr, exit status"])

p("C10", "An incomplete scan never removes ignores from a config",
  "If anything made the scan behind --update-config-ignores incomplete - a database that failed to load, an API check that failed, a lockfile or directory that could not be read - no id already listed in a config's ignore list is removed from it by that run, and the exit status is non-zero.",
  ["fault_sequences", "configurations"],
  "every fault on databases, API requests, directories and lockfiles of a run with --update-config-ignores",
  "The tests only update configs after successful scans.",
  ["main.go", "internal/configer/update.go"],
  [("vulnsPerConfig collected from reports", "run")], None, ["config file content before and after, exit status"])

p("C11", "A lockfile that cannot be read completely is an error, never a shorter list",
  "For every supported lockfile format (including csv files and files included with -r), the reported packages are exactly those of the complete file or the file is reported as an error with exit status 127, whatever I/O error hits any open, stat or read of it and at whatever offset. Short reads, interrupted system calls and chunk boundaries anywhere in the file change nothing.",
  ["fault_sequences", "inputs"],
  "every format, every content, every read size sequence and every I/O error at every offset",
  "The tests parse fixtures from a healthy disk; a read error or short read in the middle of a file is never produced.",
  ["pkg/lockfile/parse.go", "pkg/lockfile/csv.go", "pkg/lockfile/parse-yarn-lock.go", "pkg/lockfile/parse-mix-lock.go", "pkg/lockfile/parse-gradle-lock.go", "pkg/lockfile/parse-requirements-txt.go"],
  [("read errors returned by every parser, scanner.Err checked", "Parse*Lock, fromCSV")], None, ["--json output, stderr, exit status"])

p("C12", "Every given input is either reported or reported as an error",
  "For every path given on the command line, each lockfile it designates (itself, or every recognised file directly inside it) appears exactly once in the results with all its packages, or an error naming it (or its directory) is printed and the exit status is non-zero. A fault on one input (missing, unreadable, unlistable, unparsable) never changes or hides the result of another.",
  ["fault_sequences", "inputs", "configurations"],
  "every set of paths and directory contents, with every I/O fault on any of them",
  "The tests name missing files; stat and directory-listing errors, and faults on one of several inputs, are not produced.",
  ["main.go"],
  [("findLockfiles / readAllLockfiles collect errors per path", "main.go")], None, ["--json output, stderr, exit status"])

p("C13", "A damaged advisory never takes its neighbours with it, and is never silent",
  "While a directory or archive database is loaded, an advisory that cannot be read or parsed (I/O error, corrupt archive entry, invalid JSON) is named on stderr and only it (or, for an unlistable subdirectory, the advisories below that) is left out; every other advisory of that database is still used - or the whole database is reported as failed with a non-zero exit status. A directory database whose root cannot be listed is reported as failed.",
  ["fault_sequences", "inputs"],
  "every I/O fault on every file and directory of a database directory and every corrupt entry of an archive",
  "The tests load healthy directories and one with invalid JSON; I/O errors part-way through a walk or corrupt archive entries are not produced.",
  ["pkg/database/dir.go", "pkg/database/zip.go", "pkg/database/mem-check.go"],
  [("per-file diagnostics, walk continues", "DirDB.load, ZipDB.loadZipFile")], None, ["--json output, stderr, exit status"])

p("C14", "With --json stdout is exactly one JSON document, whatever goes wrong",
  "With --json, standard output is exactly one well-formed JSON object whose results list holds every lockfile that could be read, in order, whatever errors occur, wherever they occur and whatever diagnostics are printed; diagnostics go to stderr only. Short, interrupted or failing writes to stdout or stderr never change the exit status or the other stream.",
  ["fault_sequences", "inputs", "configurations"],
  "every combination of flags, inputs and faults, including faults of the output streams",
  "The tests check stdout for a few failing inputs; they write to memory buffers that cannot fail or write short.",
  ["internal/reporter/reporter.go", "main.go"],
  [("results buffered, printed once by a deferred call", "Reporter.PrintJSONResults, run")], None, ["stdout, stderr, exit status"])

p("C15", "The exit status never claims more than the run established",
  "Exit status 0 means that every given input was read, every database loaded, every check completed and no finding outside the ignore lists exists; 1 means that such findings exist and every lockfile found and every database could be loaded; if a lockfile, config or database could not be loaded the status is 127; if a given path could not be opened or an API check failed it is never 0 (127 unless findings were reported); if only directories without lockfiles were given it is 128. No combination of faults makes a run that missed something exit 0.",
  ["fault_sequences", "configurations", "inputs"],
  "every combination of findings, ignores, flags and injected faults",
  "The tests sample a few error paths; which faults combine with which findings is open-ended.",
  ["main.go", "internal/reporter/reporter.go"],
  [("exitCode, Reporter.hasErrored", "run")], None, ["exit status"])

p("C16", "Findings of several databases are merged completely when some fail",
  "For every package the reported findings are the union of what its lockfile's loaded databases say about it, each advisory once (same id or declared alias counts as the same; the first in database order - config databases as listed, then the API, then the per-ecosystem databases - and then in the order the database lists them wins), split exactly by the ids in the applicable ignore lists. A database that fails to load or to answer removes only its own contribution.",
  ["fault_sequences", "configurations", "inputs"],
  "every mix of API, archive and directory databases, overlapping and aliased advisories, withdrawn advisories, ignore lists, and any subset of databases failing",
  "The tests cover single databases and a few hand-written duplicates; partial failures combined with overlaps are not produced.",
  ["main.go", "pkg/database/vulnerabilities.go", "pkg/database/mem-check.go"],
  [("transposePkgResults dedupe and split", "main.go"), ("Vulnerabilities.Includes", "pkg/database/vulnerabilities.go")], None, ["--json output"])

p("C17", "Same inputs give byte-identical output under any benign nondeterminism",
  "Two runs over the same files, databases and successful server answers produce byte-identical stdout, the same diagnostics and the same exit status, whatever the map iteration order, goroutine schedule, response order, directory listing order, read sizes and latencies.",
  ["schedules", "inputs"],
  "every iteration order, schedule and chunking of the same run",
  "A unit test runs under one iteration order and schedule at a time and cannot choose them; most compare sorted or single-element lists.",
  ["pkg/lockfile/parse.go", "pkg/database/api-fetch-all.go", "main.go"],
  [("sorting of packages, ids, lockfiles, lines", "lockfile.Parse, FetchAll, findLockfiles, writeUpdatedConfigs")], None, ["stdout, stderr, exit status of run pairs"])

p("C18", "A config that exists but cannot be loaded is never treated as absent",
  "If the config that applies to a lockfile exists but cannot be read or parsed (or the file named with --config is not there at all), the lockfile (or, with --config, the whole run) is reported as an error with exit status 127 instead of being checked without its ignores and databases. A fault on one config never makes a lockfile use another directory's config, and lockfiles with other configs are checked as usual.",
  ["fault_sequences", "configurations"],
  "every I/O fault on every config access, every layout of configs (.yml, .yaml, both, none, --config, --no-config)",
  "The tests load missing, valid and syntactically invalid configs; permission and I/O errors on an existing config are not produced.",
  ["internal/configer/load.go", "main.go"],
  [("only not-exist falls through", "configer.Find"), ("config errors recorded per lockfile", "readAllLockfiles")], None, ["--json output, stderr, exit status"])

p("C19", "No peer answer, stored bytes or fault makes the detector crash or hang",
  "Whatever a server answers, whatever bytes lockfiles, configs, caches and databases hold, and whatever system call fails, every run ends within a bounded number of steps with one of the documented exit statuses (0, 1, 127, 128) and never with a panic, a deadlock or an endless loop.",
  ["fault_sequences", "inputs", "schedules"],
  "every fault sequence and every corruption of the bytes read from peers and disk",
  "The tests feed well-formed or slightly malformed inputs; null documents, type confusion, truncated entries and unsolicited answers are open-ended.",
  ["pkg/lockfile", "pkg/database", "internal/configer", "main.go"],
  [("errors returned instead of panics", "all parsers and databases")], None, ["termination and exit status of every simulated process"])

p("C20", "API concurrency stays bounded",
  "However many packages and advisories are involved, at no instant are more than 100 batch requests or more than 200 advisory-detail requests of one run in flight, and requests beyond the limit proceed as soon as earlier ones are answered.",
  ["schedules", "inputs"],
  "every number of batches and ids and every order and delay of answers",
  "No test has more than two batches; in-flight counts under delayed answers are never measured.",
  ["pkg/database/api-check.go", "pkg/database/api-fetch-all.go"],
  [("errgroup.SetLimit", "APIDB.Check, APIDB.FetchAll")], None, ["request log of the simulated network"])

p("C21", "Every package is asked about exactly once, every advisory fetched once",
  "When a lockfile is checked against an API, each of its packages appears in exactly one batch query (by name, ecosystem and version, or by commit when one of those is missing), no batch exceeds the batch size, nothing else is queried, and the details of each distinct advisory id returned are requested exactly once per lockfile, however slow or out of order the answers are. When a request fails, nothing is asked about more often than that; only the rest of that check may be left out.",
  ["schedules", "fault_sequences", "configurations"],
  "every package list, batch size, response order and request failure",
  "The tests compare the payload of a single request; conservation over many concurrent, failing requests is not checked.",
  ["pkg/database/api-check.go", "pkg/database/api-fetch-all.go"],
  [("batchPkgs partition, Vulnerabilities.Unique before FetchAll", "pkg/database/api-check.go")], None, ["request log of the simulated network"])

p("C22", "Each lockfile's result depends only on its own file, config and databases",
  "In a run over several lockfiles, the result of each lockfile is the one it would get alone with the same flags: the ignores and extra databases of its own config (or of --config) plus the default databases for its own ecosystems, regardless of the number, order and configs of the other lockfiles and of faults that hit those.",
  ["configurations", "inputs", "fault_sequences"],
  "every set and order of lockfiles with different configs and ecosystems, with faults on some of them",
  "The tests check a few fixed layouts; leakage between lockfiles depends on order, on shared state and on failures of neighbours.",
  ["main.go", "internal/configer/load.go"],
  [("config copied per lockfile", "readAllLockfiles"), ("databases selected per config", "OSVDatabases.forConfigs, adjustExtraDatabases")], None, ["--json output; request log"])

p("C23", "A run changes no file except its caches and the configs it was told to update",
  "Whatever happens in a run - errors, kills, faults, hostile file or archive contents - no file is created, changed or removed except the detector's own cache files in the temporary directory and, with --update-config-ignores, the configs in use (a config that is a symbolic link stays one); lockfiles, databases, directories and unrelated files keep their exact content. A completed run leaves no other temporary files behind unless removing them failed.",
  ["fault_sequences", "crash_points", "inputs"],
  "every run, fault sequence and kill point",
  "Tests look at the one file they expect to change, never at everything else.",
  ["pkg/database/zip.go", "internal/configer/update.go"],
  [("only two writers exist", "ZipDB.fetchZip, configer.UpdateWithIgnores")], None, ["complete file-system state before and after"])

# --- not claimed (pure functions of their input: see MANIFEST not_applicable) ---
p("C90", "Version-range matching follows the OSV specification",
  "A package version is considered affected exactly when the OSV evaluation algorithm says so for the advisory's ranges and versions, for every ecosystem's version ordering.",
  ["inputs"], "every version string, range and event list",
  "Tests sample a fixed list of versions and ranges.",
  ["pkg/database/osv.go"], [("AffectsRange.containsVersion, semantic.MustParse", "pkg/database/osv.go")])
p("C91", "Lockfile parsers extract exactly the packages a complete file declares",
  "For every well-formed lockfile of a supported format the extracted names, versions and commits are those the format's own tooling would install.",
  ["inputs"], "every well-formed lockfile",
  "Tests parse fixtures.",
  ["pkg/lockfile"], [("one parser per format", "pkg/lockfile/parse-*.go")])
p("C92", "Package-name normalisation is consistent between lockfiles and advisories",
  "A Python package is matched with an advisory exactly when their PEP 503 normalised names are equal.",
  ["inputs"], "every pair of names", "Tests sample names.",
  ["pkg/database/osv.go", "pkg/lockfile/parse-requirements-txt.go"], [("NormalizedName, normalizedRequirementName", "osv.go, parse-requirements-txt.go")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
