F = "src/common/src/"
P = [
 dict(id="C01", title="Saved report definitions come back exactly as they were saved",
  statement="A report definition (segmentation or funnel, with every kind of filter, breakdown, segment and typed filter value) that is written as JSON or in the stored binary form is read back equal to what was written. Two different filter values are never stored alike.",
  over=["inputs"], text="every report definition over all variants, nesting and value types",
  why="The existing tests build a few fixed requests; no test round-trips every value type and variant, and the value mirror type is written by hand for each type.",
  files=[F+"scalar.rs", F+"query.rs", F+"event_segmentation.rs", F+"funnel.rs", "src/metadata/src/reports.rs"],
  mech=[("hand-written serializable mirror of typed values", F+"scalar.rs"), ("serde_as on filter values", F+"query.rs")],
  technique="property-based round trip over generated report definitions, JSON and binary",
  note="Explores random definitions of bounded nesting; trusts serde_json and bincode."),
 dict(id="C02", title="Time buckets of a report are exactly the calendar periods its range touches",
  statement="Every instant belongs to the bucket that starts at the beginning of its hour, day, Monday-based week, month or year in UTC. A report over a range has one column per such bucket touched by the range, in order, without gaps or repeats, and a range that ends before it starts has none.",
  over=["inputs"], text="every instant, range and unit, including month ends, leap years and ranges that end exactly on an edge",
  why="Tests sample a handful of dates; edges, leap years and reversed ranges are not reached.",
  files=[F+"query.rs", F+"event_segmentation.rs"],
  mech=[("bucket truncation and enumeration", F+"query.rs date_trunc, time_columns")],
  technique="property-based testing against an independent calendar model",
  note="Oracle is day-number arithmetic written independently of chrono; dates 1969-2105."),
 dict(id="C03", title="Relative report ranges and windows have the stated extent",
  statement="A report over the last N units runs from the instant N calendar units before now until now, a range from an instant runs until now, and an explicit range is used as given. Behaviour and conversion windows of N units last exactly N times the fixed unit length.",
  over=["inputs"], text="every kind of range, unit, count and current time",
  why="Tests use one or two fixed ranges; clamping at month ends and the agreement of the two window types are not covered.",
  files=[F+"query.rs", F+"funnel.rs"], mech=[("range resolution", F+"query.rs QueryTime::range"), ("window lengths", F+"funnel.rs TimeIntervalUnitSession")],
  technique="property-based testing against an independent calendar model",
  note="Months and years in windows are the fixed 31 and 372 days the code documents by use."),
 dict(id="C04", title="Stored and queried columns agree on every logical type",
  statement="For every logical property type, the column type used when storing and the one used when querying have the same physical layout, unit, precision and scale. Each maps back to the same logical type, and different logical types get different column-name stems.",
  over=["inputs"], text="every logical type and list of it",
  why="No test compares the two sides; each conversion is a hand-written table.",
  files=[F+"types.rs", F+"arrow.rs"], mech=[("type tables", F+"types.rs")],
  technique="property-based differential test of the two type tables",
  note="The domain is small and is covered completely by the generated cases."),
 dict(id="C05", title="A patch changes exactly the fields it names",
  statement="In a patch document an absent field means unchanged, a null clears a field that can be cleared and is an error otherwise, and a value replaces the field. The same distinction survives writing the patch back out and carrying it between layers.",
  over=["inputs"], text="every combination of absent, null and set fields with arbitrary values",
  why="Tests check single examples; the three-way distinction must survive every conversion.",
  files=[F+"types.rs"], mech=[("OptionalProperty", F+"types.rs")],
  technique="property-based testing against hand-built JSON documents",
  note="Uses a patch structure of the same shape as the API's update requests."),
 dict(id="C06", title="Filter operations and aggregates mean what a report names",
  statement="The comparison, regular-expression or aggregate that a report names is the one that is executed: planned comparisons give the natural result on every value, a missing value never matches, and minimum, maximum, average and count are planned as such. Metric labels spell out the aggregates and property they show, and different metrics over different things have different labels.",
  over=["inputs"], text="every operation and aggregate over generated columns and operands",
  why="Tests exercise an operation or two; the tables that translate between the report, planner and executor vocabularies are hand-written.",
  files=[F+"query.rs", F+"event_segmentation.rs"], mech=[("operator and aggregate tables", F+"query.rs")],
  technique="property-based testing: planned operation evaluated on generated columns against the natural meaning",
  note="Evaluates through the query engine's own expression evaluator."),
 dict(id="C07", title="Any request body is either read exactly or refused with a well-formed error",
  statement="A request body is either accepted and read as exactly the document it contains, or refused with a bad-request response; no body, content type or transfer failure crashes the handler or is accepted with another meaning. Error responses carry their status, message and field errors in the documented JSON shape, and an unknown or missing field is named.",
  over=["inputs", "fault_sequences"], text="valid, mutated, truncated, mistyped, non-JSON and interrupted bodies",
  why="Tests send well-formed bodies only.",
  files=[F+"http.rs"], mech=[("Json extractor and ApiError", F+"http.rs")],
  technique="generated and mutated request bodies against the strict JSON reader as oracle",
  note="Drives the real extractor in process; no sockets."),
 dict(id="C08", title="Observing middleware does not change requests or responses",
  statement="With request logging and measuring enabled, handlers receive exactly the body and headers the client sent and clients receive exactly the status, headers and body the handler produced. A body that breaks off is answered with an error, not with a truncated body being processed.",
  over=["inputs", "fault_sequences"], text="arbitrary bodies (any bytes, chunked or not, interrupted), methods and statuses",
  why="No test covers the middlewares.",
  files=[F+"http.rs"], mech=[("print_request_response, measure_request_response", F+"http.rs")],
  technique="generated requests through the real middleware stack with an echo handler",
  note="In-process service calls."),
 dict(id="C09", title="Each role holds exactly its documented privileges",
  statement="A project reader may only explore reports and view the schema, a member may in addition manage both, an administrator may in addition manage the project and its members, and only an owner may do everything; organization roles are graded the same way. No role holds a privilege that the role above it lacks.",
  over=["inputs"], text="every role and privilege",
  why="Existing tests do not look the tables up.",
  files=[F+"rbac.rs"], mech=[("role tables", F+"rbac.rs")],
  technique="generated role/privilege pairs against an independent reference table",
  note="The whole table is covered; enforcement per request is P-properties' subject."),
]
