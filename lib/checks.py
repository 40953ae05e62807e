"""One entry per claimed property: how its check runs, at what level, with what note (MANIFEST.json is made from this)."""

CHECKS = {}
CATALOG_ASSUMPTIONS = [
    "The SQLite repository is driven; the PostgreSQL one shares its macro-generated bodies but no server is available here",
    "Storage UUIDs handed to the catalog are unique and the clock that stamps versions does not go backwards",
]


def check(id, title, level, note, assumptions=()):
    def deco(f):
        CHECKS[id] = {"run": f, "technique": title, "level": level, "note": note, "assumptions": list(assumptions)}
        return f
    return deco


MBT = "TLA+ state graph (TLC, exhaustive) replayed transition by transition on the real code, results and full state compared"


def random_traces(ctx, n, length):
    """Long random executions over many names, recorded from the code and checked against the specification by TLC"""
    import os
    kinds, steps, fail, states = {}, 0, None, 0
    for i in range(n):
        t = os.path.join(ctx.dir, f"trace{i}.ndjson")
        r = ctx.harness("h_core", "catalog-random", {"trace": t, "len": length, "seed": ctx.seed * 100 + i})
        if r.get("failure"):
            fail = r["failure"]
            break
        for k, v in r["kinds"].items():
            kinds[k] = kinds.get(k, 0) + v
        bad, st = ctx.validate("CatalogTrace.tla", "CatalogTrace.cfg", t, r["events"])
        steps += r["events"]
        states += st["states"]
        if bad:
            fail = dict(bad, seed=ctx.seed * 100 + i)
            break
    ctx.leg("recorded random executions checked against CatalogTrace.tla",
            {"traces": n, "steps": steps, "states": states, "transitions": steps, "kinds": kinds, "failure": fail},
            spec="CatalogTrace.tla")


@check("C01", MBT, "model_checking",
       "Every transition of Catalog.tla within the bounds is executed on the real SQLite repository; the listing, lookup and "
       "storage views are all compared after each one. Long random executions over awkward names are validated by TLC.",
       CATALOG_ASSUMPTIONS)
def c01(ctx):
    ctx.tour("names, schemas, moves", ctx.pick("Catalog_ns_q.cfg", "Catalog_ns_t.cfg"), ctx.pick(60, 1200))
    random_traces(ctx, ctx.pick(3, 30), ctx.pick(400, 800))


@check("C02", MBT + "; database faults injected at every changed row and at sampled statements", "fault_enumeration",
       "Each transition is first attempted with faults: denied statements (authorizer) and row changes failing from the k-th "
       "on (triggers), for every k; after each failed attempt the full state must be the one before.",
       CATALOG_ASSUMPTIONS)
def c02(ctx):
    ctx.tour("failing operations", ctx.pick("Catalog_fault_q.cfg", "Catalog_fault_t.cfg"), ctx.pick(90, 1500),
             faults=True, samples=ctx.pick(2, 8))
    l = ctx.legs[-1]
    l["evaluations"], l["distinct"] = l.get("probes", 0), l.get("covered", 0)
    l["rule"] = "an evaluation is an attempt hit by a fault; distinct: transitions of the TLA+ graph attempted"


@check("C03", MBT, "model_checking",
       "As C01, over the versions family: recording versions, pruning, histories, several tables and databases.",
       CATALOG_ASSUMPTIONS)
def c03(ctx):
    ctx.tour("versions and pruning", ctx.pick("Catalog_ver_q.cfg", "Catalog_ver_t.cfg"), ctx.pick(60, 1200))
    random_traces(ctx, ctx.pick(2, 20), ctx.pick(400, 800))


@check("C04", MBT, "model_checking",
       "As C01, over the drop family, with row counts of every catalog table part of the compared state.",
       CATALOG_ASSUMPTIONS)
def c04(ctx):
    if ctx.quick:
        ctx.tour("drops across databases", "Catalog_dropA_q.cfg", 40)
        ctx.tour("drops across schemas", "Catalog_dropB_q.cfg", 50)
    else:
        ctx.tour("drops", "Catalog_drop_t.cfg", 1500)
    random_traces(ctx, ctx.pick(1, 10), 400)


@check("C05", MBT, "model_checking",
       "As C01, over the functions family: creation, replacement, multi-name drops, two databases, attributes compared.",
       CATALOG_ASSUMPTIONS)
def c05(ctx):
    ctx.tour("functions", ctx.pick("Catalog_fn_q.cfg", "Catalog_fn_t.cfg"), ctx.pick(60, 1200))
    random_traces(ctx, ctx.pick(1, 10), 400)


@check("C06", MBT, "model_checking",
       "Every transition of DroppedTables.tla within the bounds is executed on the real repository.",
       CATALOG_ASSUMPTIONS)
def c06(ctx):
    ctx.tour("dropped tables", ctx.pick("DroppedTables_q.cfg", "DroppedTables_t.cfg"), ctx.pick(60, 900),
             module="DroppedTables.tla", sub="dropped-tour")


@check("C07", "schedule exploration of concurrent catalog calls on the real code; outcomes checked for linearizability "
       "against the TLA+ state graph", "model_checking",
       "From states of the exhaustive graph, pairs and triples of operations run on gated connections; schedules are enumerated "
       "depth first at statement granularity and each outcome must equal that of some sequential order in the graph.",
       CATALOG_ASSUMPTIONS)
def c07(ctx):
    out, st = ctx.graph("MCCatalog.tla", "Catalog_fault_q.cfg")
    r = ctx.harness("h_core", "catalog-concurrent", {"graph": out, "budget_s": ctx.pick(60, 1200)})
    ctx.leg("interleaved operations", r, spec="Catalog_fault_q.cfg", distribution="schedules at statement granularity")
    r = ctx.harness("h_core", "catalog-free", {"graph": out, "budget_s": ctx.pick(10, 300)})
    r["evaluations"], r["distinct"] = r.get("groups", 0), r.get("kind_groups", 0)
    ctx.leg("operations on several threads, on a catalog opened as the server does", r, spec="Catalog_fault_q.cfg",
            distribution="random groups of 2 to 4 operations in random states, scheduled by the operating system")


@check("C08", "TLA+ behaviours executed in child processes killed at each step, catalog reopened and compared with the "
       "specification's state", "fault_enumeration",
       "Histories from the TLA+ graph run in a child process killed (SIGKILL) at sampled instants; after reopening in each "
       "journal mode the state must be the specification's state before or after the operation under way; read-only opens are "
       "compared and must refuse all writes.", CATALOG_ASSUMPTIONS)
def c08(ctx):
    out, st = ctx.graph("MCCatalog.tla", "Catalog_fault_q.cfg")
    r = ctx.harness("h_core", "catalog-durable", {"graph": out, "budget_s": ctx.pick(45, 900),
                                                   "histories": ctx.pick(64, 2000)})
    r["evaluations"], r["distinct"] = r.get("crashes", 0) + r.get("reopens", 0), r.get("crashes", 0)
    ctx.leg("kill and reopen", r, spec="Catalog_fault_q.cfg",
            rule="a case is a kill point or reopening of a history; histories are walks of the TLA+ graph")


# ---------------------------------------------------------------------------------------------- queries and statements
CASES = "every reachable state of a TLA+ specification (TLC, exhaustive) is a case evaluated on the real code"


@check("T01", CASES, "model_checking",
       "TimeTravel.tla builds queries by nesting table references of every kind into every position; each query is rewritten "
       "by the real visitor, compared as a syntax tree with the specification's, and planned by DataFusion with the reported "
       "versions registered the way the context does.",
       ["Registration of versioned tables is done by the harness as SeafowlContext::rewrite_time_travel_query does it"])
def t01(ctx):
    ctx.cases("queries", "MCTimeTravel.tla", ctx.pick("TimeTravel_q.cfg", "TimeTravel_t.cfg"), "time-travel")
    if ctx.quick:
        ctx.cases("nested queries", "MCTimeTravel.tla", "TimeTravel_deep_q.cfg", "time-travel", plan_every=3)


@check("T02", CASES, "model_checking",
       "Timestamps.tla renders instants in every supported format and offset (its calendar is checked against an independent "
       "one) and breaks them; each text must select that instant or be rejected, and internal names must tell instants apart.")
def t02(ctx):
    ctx.cases("timestamps", "MCTimestamps.tla", ctx.pick("Timestamps_q.cfg", "Timestamps_t.cfg"), "timestamps")


@check("P01", CASES, "model_checking",
       "Script.tla writes texts of several statements (and malformed and run-on ones); each must split into exactly its statements, "
       "each equal to what it parses to alone.")
def p01(ctx):
    ctx.cases("two statements", "Script.tla", "Script_q.cfg", "scripts")
    ctx.cases("three statements", "Script.tla", ctx.pick("Script_deep_q.cfg", "Script_t.cfg"), "scripts")


@check("P02", CASES, "model_checking",
       "Statements.tla writes the extension statements clause by clause in every order, with spellings of names and with "
       "forbidden, duplicate and missing clauses; each is parsed in three spellings of keywords and white space.")
def p02(ctx):
    ctx.cases("extension statements", "Statements.tla", ctx.pick("Statements_q.cfg", "Statements_t.cfg"), "statements")


@check("P03", CASES, "model_checking",
       "Columns.tla lists every SQL type with the column type it denotes (or none), decimals around every boundary, and "
       "combinations of columns; each definition is parsed and converted by the real code.")
def p03(ctx):
    ctx.cases("types", "Columns.tla", "Columns_q.cfg", "columns")
    ctx.cases("several columns", "Columns.tla", ctx.pick("Columns_order_q.cfg", "Columns_order_t.cfg"), "columns")


# ---------------------------------------------------------------------------------------------- remote databases
REMOTE_ASSUMPTIONS = [
    "No PostgreSQL or MySQL server is available: their lexical rules and operator grammars are those of the specification, "
    "written from their manuals; SQLite's are also put to SQLite itself",
    "Remote columns hold the declared types, text is compared by its characters (no case-insensitive collation), MySQL runs in its "
    "default SQL mode and its bitwise operators are applied to non-negative numbers; the filter itself has a value (no overflow or division by zero)",
]


def quoting(ctx):
    import os
    out, st = ctx.graph("Quoting.tla", ctx.pick("Quoting_q.cfg", "Quoting_t.cfg"))
    t = os.path.join(ctx.dir, "quoting.ndjson")
    r = ctx.harness("h_core", "quoting", {"graph": out, "trace": t})
    bad, st = ctx.validate("QuotingTrace.tla", "QuotingTrace.cfg", t, r["events"])
    if bad:
        r["failures"] = r["failures"] + [bad]
    ctx.leg("names and texts, written by the code and read by the specification", r, spec="QuotingTrace.tla")


@check("F01", CASES + "; texts are read back with TLA+-specified grammars and by SQLite", "model_checking",
       "Filter.tla nests operators, computing the filter's value on every row of a table under three-valued logic; the text the "
       "real code sends is parsed with each database's grammar (from the specification), evaluated and compared; SQLite also "
       "evaluates it, and DataFusion evaluates the filter itself. Literals.tla does the same for literals of every type.",
       REMOTE_ASSUMPTIONS)
def f01(ctx):
    ctx.cases("all operators, nested twice", "Filter.tla", "Filter_q.cfg", "filters", mode="meaning")
    ctx.cases("nested three times and joined", "Filter.tla", ctx.pick("Filter_deep_q.cfg", "Filter_t.cfg"), "filters", mode="meaning")
    ctx.cases("literals", "MCLiterals.tla", ctx.pick("Literals_q.cfg", "Literals_t.cfg"), "literals", mode="meaning")
    quoting(ctx)


@check("F02", CASES + "; names and texts recorded from the code are read by a TLA+ specification of the lexical rules", "model_checking",
       "Parts without exact counterpart are put at every place of the filters of Filter.tla, which must then be refused as a "
       "whole; Quoting.tla reads every name and text the code writes over an alphabet of special characters.", REMOTE_ASSUMPTIONS)
def f02(ctx):
    ctx.cases("all operators, nested twice", "Filter.tla", "Filter_q.cfg", "filters", mode="refusal")
    ctx.cases("nested three times and joined", "Filter.tla", ctx.pick("Filter_deep_q.cfg", "Filter_t.cfg"), "filters", mode="refusal")
    ctx.cases("literals", "MCLiterals.tla", ctx.pick("Literals_q.cfg", "Literals_t.cfg"), "literals", mode="refusal")
    quoting(ctx)


# ---------------------------------------------------------------------------------------------- user-defined functions
WASM_ASSUMPTIONS = [
    "A row with a NULL argument has the result NULL and is not passed to the function; a function of constants (or of nothing) is evaluated "
    "once per query, as DataFusion does with constant expressions",
    "Modules terminate: there is no limit on the time a module may run",
]


@check("W01", CASES, "model_checking",
       "WasmRows.tla lists signatures, batches with columns and constants in every place, NULLs and query-level uses; guests are "
       "assembled for each signature, called through the registered function and through SQL, and every row's result compared; "
       "the guest counts its calls. WasmValues.tla lists boundary values of every type, sent through and back.", WASM_ASSUMPTIONS)
def w01(ctx):
    kw = {"sql_every": ctx.pick(7, 1)}
    for name, cfg in [("one argument", "one"), ("several arguments", "many"), ("rows and batches", "rows"), ("long batches", "long")]:
        ctx.cases(name, "WasmRows.tla", f"WasmRows_{cfg}_{ctx.pick('q', 't')}.cfg", "wasm-rows", **kw)
    ctx.cases("no arguments", "WasmRows.tla", "WasmRows_none.cfg", "wasm-rows", sql_every=1)
    ctx.cases("boundary values", "WasmValues.tla", "WasmValues.cfg", "wasm-values")


@check("W02", CASES, "model_checking",
       "WasmCall.tla is the protocol of host and guest, with a defect at any step of it; modules with each defect are loaded and "
       "called on sequences of batches. Each call must end as specified: an error or the values, never a panic, later calls unharmed. "
       "WasmValues.tla has malformed and mistyped results for every declared type.", WASM_ASSUMPTIONS)
def w02(ctx):
    ctx.cases("defective modules", "WasmCall.tla", ctx.pick("WasmCall_q.cfg", "WasmCall_t.cfg"), "wasm-calls")
    ctx.cases("results of any kind", "WasmValues.tla", "WasmValues.cfg", "wasm-values")


# ---------------------------------------------------------------------------------------------- runtime and frontend
@check("M01", MBT + "; schedules of several threads enumerated", "model_checking",
       "Every transition of Memory.tla (three kinds of pool, consumers of several kinds, splitting, resizing, dropping) is executed "
       "on the real pool; answers, totals and the current reservation compared after each. MemoryReport.tla: schedules of two threads "
       "changing and reporting, run on gated threads.",
       ["The pools behind the metrics are DataFusion's; consumers' own bookkeeping is not part of the property"])
def m01(ctx):
    ctx.tour("consumers of all kinds", "Memory_q.cfg", ctx.pick(40, 300), module="Memory.tla", sub="memory-tour")
    ctx.tour("splitting", ctx.pick("Memory_split_q.cfg", "Memory_t.cfg"), ctx.pick(50, 900), module="Memory.tla", sub="memory-tour")
    ctx.cases("two threads" if ctx.quick else "three threads", "MemoryReport.tla", ctx.pick("MemoryReport_q.cfg", "MemoryReport_t.cfg"),
              "memory-report", schedules=ctx.pick(300, 2000), budget_s=ctx.pick(40, 900))


@check("O01", MBT + "; failures of each step provoked (directories in the way or unwritable, file size limit)", "fault_enumeration",
       "Every transition of FastUpload.tla is executed on scratch directories of two real filesystems, as an unprivileged user; "
       "all files are compared after each.",
       ["Only local filesystems; the process is not killed in the middle of a move"])
def o01(ctx):
    ctx.tour("moves and obstacles", ctx.pick("FastUpload_q.cfg", "FastUpload_t.cfg"), ctx.pick(45, 900), module="FastUpload.tla", sub="upload-tour")
    ctx.tour("moves with a size limit", ctx.pick("FastUpload_limit_q.cfg", "FastUpload_limit_t.cfg"), ctx.pick(45, 900), module="FastUpload.tla",
             sub="upload-tour", threads=1)
    for l in ctx.legs:
        l["evaluations"], l["distinct"] = l.get("steps", 0), l.get("covered", 0)
        l["rule"] = "an evaluation is a step executed; distinct: transitions of the TLA+ graph"


@check("N01", CASES, "model_checking",
       "All pairs of plans of Nodes.tla are built as real nodes, compared, hashed, rebuilt and optimized by DataFusion, and explained.",
       ["How a plan is worded in EXPLAIN, beyond naming its objects in order, is not specified"])
def n01(ctx):
    ctx.cases("pairs of plans", "Nodes.tla", ctx.pick("Nodes_q.cfg", "Nodes_t.cfg"), "plan-nodes")


@check("O02", CASES, "model_checking",
       "StoreOptions.tla resolves options and environment variables, StoreConfig.tla describes configured stores; both are evaluated "
       "on the real code (Google and local stores; the S3 ones need a library that is not here).",
       ["Stores on S3 are configured by a file that needs the iceberg library and is not built"])
def o02(ctx):
    ctx.cases("options and environment", "StoreOptions.tla", ctx.pick("StoreOptions_q.cfg", "StoreOptions_t.cfg"), "store-options")
    ctx.cases("configurations", "StoreConfig.tla", "StoreConfig_q.cfg", "store-config")


@check("O03", MBT, "model_checking",
       "Every transition of LocalStore.tla is executed on a store built by the real code, as an unprivileged user for local ones; "
       "objects, files and directories are compared after each.")
def o03(ctx):
    ctx.tour("local store", ctx.pick("LocalStore_q.cfg", "LocalStore_t.cfg"), ctx.pick(30, 300), module="LocalStore.tla", sub="store-tour", store="local")
    ctx.tour("store in memory", "LocalStore_memory.cfg", ctx.pick(30, 300), module="LocalStore.tla", sub="store-tour", store="memory")


@check("L01", CASES, "model_checking",
       "Cli.tla reads typed lines; each sequence is typed into a process running the real command loop, with an engine behind it that "
       "records what it is asked to do.",
       ["Lines are read from a pipe, not a terminal; the engine is a stand-in"])
def l01(ctx):
    ctx.cases("all lines", "Cli.tla", ctx.pick("Cli_q.cfg", "Cli_t.cfg"), "cli", crate="h_cli")
    ctx.cases("longer sessions", "Cli.tla", ctx.pick("Cli_long_q.cfg", "Cli_long.cfg"), "cli", crate="h_cli")


@check("H01", CASES, "model_checking",
       "HttpErrors.tla lists the failures and how requests meet routes; real warp routes raise each failure at admission or in the "
       "handler, through the real rejection handler, and status and body are compared.",
       ["A request that fails admission on several routes gets the answer of one of them",
        "Failures wrapped in DataFusion errors count as client mistakes, whatever they wrap"])
def h01(ctx):
    ctx.cases("failures and details", "HttpErrors.tla", "HttpErrors_detail.cfg", "http-errors")
    ctx.cases("routes", "HttpErrors.tla", ctx.pick("HttpErrors_q.cfg", "HttpErrors_t.cfg"), "http-errors")
SYSTEM_ASSUMPTIONS = [
    "The deltalake and iceberg libraries are not available here; small stand-ins of ours (harness/stubs) implement the part of "
    "their interface Seafowl uses (transaction log, snapshots, file statistics, conflict detection, vacuum) from their documentation",
    "Storage is the in-memory object store unless stated, the catalog SQLite",
]


def table_tour(ctx, name, g, budget, **kw):
    return ctx.tour(name, f"Tables_{g}_{'q' if ctx.quick else 't'}.cfg", budget, module="MCTables.tla", crate="h_full",
                    sub="tables-tour", max_len=60, **kw)


def table_traces(ctx, n, length, marks, versions, base=0):
    import os
    kinds, steps, fail, states = {}, 0, None, 0
    for i in range(n):
        t = os.path.join(ctx.dir, f"trace{i}.ndjson")
        seed = ctx.seed * 100 + base + i
        r = ctx.harness("h_full", "tables-random", {"trace": t, "len": length, "seed": seed, "style": seed, "marks": marks, "versions": versions})
        if r.get("failure"):
            fail = r["failure"]
            break
        for k, v in r["operations"].items():
            kinds[k] = kinds.get(k, 0) + v
        bad, st = ctx.validate("TablesTrace.tla", "TablesTrace.cfg", t, r["events"])
        steps += r["events"]
        states += st["states"]
        if bad:
            fail = dict(bad, seed=seed)
            break
    ctx.leg("recorded random statements checked against TablesTrace.tla",
            {"traces": n, "steps": steps, "states": states, "transitions": steps, "kinds": kinds, "failure": fail}, spec="TablesTrace.tla")


@check("D01", MBT + "; random executions validated by TLC", "model_checking",
       "The whole server (context, planner, execution, catalog) runs on stand-ins for the Delta and Iceberg libraries. Every transition "
       "of Tables.tla within the bounds is a statement, with tables spread over data files of two rows and names written in four ways.",
       SYSTEM_ASSUMPTIONS)
def d01(ctx):
    table_tour(ctx, "statements on one table", "one", ctx.pick(28, 400), partition=2)
    table_tour(ctx, "statements between two tables", "two", ctx.pick(14, 900), partition=2)
    table_tour(ctx, "columns that are NOT NULL, statements failing midway", "notnull", ctx.pick(14, 900), partition=2)
    table_traces(ctx, ctx.pick(1, 12), ctx.pick(160, 500), 0, False)


@check("T03", MBT + "; random executions validated by TLC", "model_checking",
       "Instants are marked between statements and read back after every later one; system.table_versions is compared as well.",
       SYSTEM_ASSUMPTIONS)
def t03(ctx):
    table_tour(ctx, "histories read back", "past", ctx.pick(35, 900), partition=2, versions=True)
    table_traces(ctx, ctx.pick(1, 12), ctx.pick(120, 400), 6, True, base=50)


@check("A01", MBT, "model_checking",
       "Requests go through the whole filter chain of the HTTP interface of a running system; a wrong password is tried in a handful of forms.",
       SYSTEM_ASSUMPTIONS)
def a01(ctx):
    ctx.tour("policies, credentials and requests", ctx.pick("HttpServer_access_q.cfg", "HttpServer_access_t.cfg"), ctx.pick(60, 800),
             module="HttpServer.tla", crate="h_full", sub="server-tour", max_len=60)


@check("H02", MBT, "model_checking",
       "One client that remembers one answer; other requests and statements change the tables in between.",
       SYSTEM_ASSUMPTIONS)
def h02(ctx):
    ctx.tour("remembered answers", ctx.pick("HttpServer_tags_q.cfg", "HttpServer_tags_t.cfg"), ctx.pick(50, 600),
             module="HttpServer.tla", crate="h_full", sub="server-tour", max_len=60)
    ctx.tour("databases", ctx.pick("HttpServer_dbs_q.cfg", "HttpServer_dbs_t.cfg"), ctx.pick(30, 250),
             module="HttpServer.tla", crate="h_full", sub="server-tour", max_len=60)


def ranges(ctx, watch):
    import os
    two = ([5, 4], 2) if ctx.quick else ([7, 4, 1], 3)
    ctx.tour("ranges of two objects, one at a time and several, files lost", ctx.pick("RangeCache_two_q.cfg", "RangeCache_two_t.cfg"),
             ctx.pick(40, 500), module="RangeCache.tla", crate="h_full", sub="ranges-tour", max_len=80, lens=two[0], chunk=two[1], watch=watch)
    ctx.tour("with the store or the disk failing", ctx.pick("RangeCache_faults_q.cfg", "RangeCache_faults_t.cfg"),
             ctx.pick(20, 300), module="RangeCache.tla", crate="h_full", sub="ranges-tour", max_len=80, lens=ctx.pick([5], [5, 4]), chunk=2,
             threads=1, watch=watch)
    t = os.path.join(ctx.dir, "ranges.ndjson")
    r = ctx.harness("h_full", "ranges-random", {"trace": t, "sessions": ctx.pick(24, 48), "len": ctx.pick(40, 400)})
    bad, st = (None, {"states": 0}) if r.get("failure") else ctx.validate("RangeCacheTrace.tla", f"RangeCacheTrace_{watch}.cfg", t, r["events"])
    ctx.leg("recorded reads through caches that are too small, expire and have several readers, checked against RangeCacheTrace.tla",
            dict(r, traces=r.get("sessions", 0), states=st["states"], transitions=r.get("events", 0), **({"failure": bad} if bad else {})),
            spec="RangeCacheTrace.tla")


RANGES_ASSUMPTIONS = ["The store beneath is in memory and its objects do not change", "What moka (the cache library) evicts is observed, not prescribed, "
                      "except that what fits stays", "Failing writes of the cache are produced by a limit on the size of files"]


@check("D02", CASES, "model_checking",
       "Every division of up to three batches (four in the thorough tier; the start of another partition counts as one) of up to four rows each and every small limit; NULLs and empty texts; rows of 4 MB, so that files take several parts; each request of an upload failing.",
       SYSTEM_ASSUMPTIONS)
def d02(ctx):
    ctx.cases("rows in batches", "DataFiles.tla", ctx.pick("DataFiles_q.cfg", "DataFiles_t.cfg"), "data-files", crate="h_full")
    ctx.cases("NULLs and empty texts", "DataFiles.tla", "DataFiles_kinds_q.cfg", "data-files", crate="h_full")
    ctx.cases("big rows", "DataFiles.tla", ctx.pick("DataFiles_big_q.cfg", "DataFiles_big_t.cfg"), "data-files", crate="h_full")
    ctx.cases("failing uploads", "DataFiles.tla", ctx.pick("DataFiles_faults_q.cfg", "DataFiles_faults_t.cfg"), "data-files", crate="h_full")


@check("D03", MBT, "model_checking",
       "Two servers over one catalog file and one directory; three schemas, at most one table in all (three in the thorough tier), an external table of a CSV or a Parquet file on each server; restarts.",
       SYSTEM_ASSUMPTIONS)
def d03(ctx):
    ctx.tour("schemas, tables and external tables", ctx.pick("Schemas_q.cfg", "Schemas_t.cfg"), ctx.pick(60, 800),
             module="Schemas.tla", crate="h_full", sub="schemas-tour", max_len=60)


@check("D04", MBT, "model_checking",
       "Two locations with up to two files each (three, one in a directory below, in the thorough tier), two names, a created table, one inserted row (two); restarts.",
       SYSTEM_ASSUMPTIONS)
def d04(ctx):
    ctx.tour("locations that become tables", ctx.pick("Convert_q.cfg", "Convert_t.cfg"), ctx.pick(60, 800),
             module="Convert.tla", crate="h_full", sub="convert-tour", max_len=60)


@check("D05", MBT, "model_checking",
       "Files of one or two rows, two different ones, up to two of each in a table (three), two tables, one of them in a schema that isn't there at first.",
       SYSTEM_ASSUMPTIONS)
def d05(ctx):
    ctx.tour("uploaded files", ctx.pick("Upload_q.cfg", "Upload_t.cfg"), ctx.pick(60, 800),
             module="Upload.tla", crate="h_full", sub="uploads-tour", max_len=150)


@check("K01", MBT + "; recorded executions validated by TLC", "model_checking",
       "Objects of a few chunks of two or three bytes, all ranges; overlapping readers, lost files, failing store and disk, eviction and expiry.",
       RANGES_ASSUMPTIONS)
def k01(ctx):
    ranges(ctx, "data")


@check("K02", MBT + "; recorded executions validated by TLC", "model_checking",
       "As for K01; compared are the chunks asked of the store, and the files of the cache after each step and at the end.",
       RANGES_ASSUMPTIONS)
def k02(ctx):
    ranges(ctx, "files")


@check("G01", MBT, "model_checking",
       "Storage fails for one table at a time (listing at once or midway, deleting the last file), or the catalog refuses to forget; the records are the ones earlier versions stored, since this one deletes directly.",
       SYSTEM_ASSUMPTIONS)
def g01(ctx):
    ctx.tour("records, files and failures", ctx.pick("Cleanup_q.cfg", "Cleanup_t.cfg"), ctx.pick(60, 800),
             module="Cleanup.tla", crate="h_full", sub="gc-tour", max_len=80)


SYNC_ASSUMPTIONS = SYSTEM_ASSUMPTIONS + ["Changes are valid against the table (inserted keys are new, updated and deleted ones exist); flags of unchanged columns come with NULL values."]


@check("S02", MBT, "model_checking",
       "Changes of two keys (up to three in the thorough tier), messages of one column set each, at most a few pending between writes.",
       SYNC_ASSUMPTIONS)
def s02(ctx):
    ctx.tour("changes of rows in messages of different columns", ctx.pick("SyncRows_q.cfg", "SyncRows_t.cfg"), ctx.pick(70, 800),
             module="SyncRows.tla", crate="h_full", sub="sync-tour", max_len=120, only=["flush"], partition=2,
             keys=["int", "pair", "text", "same", "pair2", "upper"], stats=["own"])
    ctx.tour("rows that get a new key without all of their values", "SyncRows_k.cfg", 60,
             module="SyncRows.tla", crate="h_full", sub="sync-tour", max_len=120, only=["flush"], partition=2,
             keys=["int", "pair"], stats=["own"], each=True)


@check("S03", MBT, "model_checking",
       "Four keys (five in the thorough tier) of each kind, in files of one row each, at most two changes between writes; statistics as written, claiming millions of rows (so that rows are compared with files one by one), without bounds, without any.",
       SYNC_ASSUMPTIONS)
def s03(ctx):
    ctx.tour("changes of rows in files with all kinds of statistics", ctx.pick("SyncRows_pq.cfg", "SyncRows_pt.cfg"), ctx.pick(80, 800),
             module="SyncRows.tla", crate="h_full", sub="sync-tour", max_len=60, only=["flush"], partition=1,
             keys=["int", "bigint", "text", "date", "double", "pair", "same", "pair2", "upper"],
             stats=["own", "many", "none", "many unbounded", "unbounded", "many none"])


@check("S04", CASES, "model_checking",
       "Every list of up to four columns (five in the thorough tier) of any role, two names and two types, and every pair of those that describe changes.",
       SYNC_ASSUMPTIONS)
def s04(ctx):
    ctx.cases("descriptions of changes", "SyncSchemas.tla", ctx.pick("SyncSchemas_Sq.cfg", "SyncSchemas_St.cfg"), "sync-schemas", crate="h_full")
    ctx.cases("pairs of descriptions", "SyncSchemas.tla", ctx.pick("SyncSchemas_Pq.cfg", "SyncSchemas_Pt.cfg"), "sync-schemas", crate="h_full")


@check("S01", "random executions of the real code, recorded and validated by TLC against a TLA+ trace specification", "model_checking",
       "Random sessions of two origins, three tables of four keys, transactions of several messages; written at once, after two messages of different columns, by size or by age; with and without storage failures (before or after they take effect) and restarts.",
       SYNC_ASSUMPTIONS)
def s01(ctx):
    import os
    d, n = os.path.join(ctx.dir, "sessions"), ctx.pick(48, 480)
    os.makedirs(d, exist_ok=True)
    r = ctx.harness("h_full", "sync-random", {"dir": d, "sessions": n, "len": ctx.pick(60, 80)})
    kinds, steps, states, fail = {}, 0, 0, None
    for x in r["sessions"]:
        for k, v in x["kinds"].items():
            kinds[k] = kinds.get(k, 0) + v
        bad, st = ctx.validate("SyncTrace.tla", "SyncTrace.cfg", x["trace"], x["events"])
        steps += x["events"]
        states += st["states"]
        fail = fail or bad or x.get("failure")
    ctx.leg("recorded sessions of replication checked against SyncTrace.tla",
            {"traces": n, "steps": steps, "states": states, "transitions": steps, "kinds": kinds, "failure": fail}, spec="SyncTrace.tla")
    ctx.cases("changes compacted before they are written with further ones", "SyncHistories.tla",
              ctx.pick("SyncHistories_squash_q.cfg", "SyncHistories_squash_t.cfg"), "sync-histories", crate="h_full", late=True)
    ctx.cases("changes sent again after a restart", "SyncHistories.tla",
              ctx.pick("SyncHistories_restart_q.cfg", "SyncHistories_restart_t.cfg"), "sync-histories", crate="h_full")


@check("W04", MBT, "model_checking",
       "Two servers over one catalog file, two databases; names in several spellings, one of a built-in function; broken definitions; restarts. After each step every name is called on both servers in both databases.",
       SYSTEM_ASSUMPTIONS)
def w04(ctx):
    ctx.tour("functions of two servers", ctx.pick("FunctionLife_q.cfg", "FunctionLife_t.cfg"), ctx.pick(75, 800),
             module="FunctionLife.tla", crate="h_full", sub="functions-tour", max_len=60)


@check("W03", CASES, "model_checking",
       "Every spelling of every type alone and among others, every language and volatility, argument lists of all lengths; each accepted definition is stored, also over another one, and loaded with the others of its database.",
       SYSTEM_ASSUMPTIONS)
def w03(ctx):
    ctx.cases("definitions", "Definitions.tla", ctx.pick("Definitions_q.cfg", "Definitions_t.cfg"), "definitions", crate="h_full")


@check("X01", MBT + "; overlapping requests repeated", "model_checking",
       "The real Flight server on the loopback; requests about its own tables, another schema's and catalogs sent along, also malformed ones; tickets redeemed later, twice and forged; pairs of requests at the same time.",
       SYSTEM_ASSUMPTIONS)
def x01(ctx):
    ctx.tour("requests and tickets", ctx.pick("Flight_q.cfg", "Flight_t.cfg"), ctx.pick(60, 800),
             module="Flight.tla", crate="h_full", sub="flight-tour", max_len=60)
