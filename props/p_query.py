F = "src/query/src/"
LP, PP = F+"logical_plan/", F+"physical_plan/"
X = PP+"expressions/"
P = [
 dict(id="Q01", title="A segmentation report gives the numbers its definition says",
  statement="For every request over the stored events (time range, interval, events with their filters, custom events, breakdowns, and counts, uniques, sums, averages, minima and maxima, per event or per group) the report holds, for each event, query and combination of breakdown values, exactly the value per interval that the definition gives over the project's rows, in both the time-series and table forms, and lists no other line.",
  over=["inputs", "configurations"], text="every request over every set of stored events, with nulls, unknown strings and rows spread over files and memory",
  why="The tests fix a handful of plans over one CSV and mostly print the result; wrong numbers show only for particular mixes of filters, nulls, types and layouts.",
  files=[F+"event_segmentation.rs", F+"expr.rs", PP+"segmented_aggregate.rs", X+"aggregate/partitioned/aggregate.rs", X+"aggregate/count.rs"],
  mech=[("plan of a report", F+"event_segmentation.rs"), ("aggregates", PP+"segmented_aggregate.rs"), ("filters", F+"expr.rs")],
  technique="property-based testing of random requests and event sets against a reference that computes the report from the rows",
  note="Up to 60 rows in each of two projects, 8 property types, up to 3 events and 3 queries per event; averages over users in several partitions are a known finding."),
 dict(id="Q02", title="How the tables are laid out does not show in an answer",
  statement="For every set of stored events and every report, funnel, record search, record and list of property values asked of it, the answer is the same whether the rows are in memory, in one file or in many, before and after a flush, a compaction or a restart, and whatever the order the events were inserted in.",
  over=["histories", "inputs"], text="every sequence of flushes, compactions and restarts, and every order of insertion of the same rows",
  why="The tests query one layout; readers, merging and partitioning differ with each other one.",
  files=[F+"lib.rs", PP+"db_parquet.rs", PP+"partition.rs", "src/storage/src/parquet/arrow_merger.rs", "src/storage/src/db.rs"],
  mech=[("reading the tables", PP+"db_parquet.rs"), ("merging of parts", "src/storage/src/parquet/arrow_merger.rs"), ("aggregation over partitions", PP+"segmented_aggregate.rs")],
  technique="metamorphic property-based testing: random requests are repeated after each change of layout of the same rows",
  note="Funnels over rows at different times; group tables and averages over users in several partitions are known findings of Q06 and Q01. arrow2 and parquet2 are stand-ins of the harness."),
 dict(id="Q03", title="The events of other projects don't show in a project's answers",
  statement="For every set of stored events of several projects, the answer to every report, funnel, record search, record and list of property values of one project is the same as if the other projects had no events.",
  over=["inputs"], text="every mix of the events of up to three projects and every request of one of them",
  why="The tests have one project; projects share tables, columns, ids and files.",
  files=[F+"lib.rs", F+"event_segmentation.rs", F+"funnel.rs", F+"event_records.rs", F+"properties.rs"],
  mech=[("restriction to a project", F+"lib.rs"), ("plans", F+"event_segmentation.rs")],
  technique="differential property-based testing: random requests with and without the other projects' rows",
  note="Projects use the same property names, event names and ids."),
 dict(id="Q04", title="A funnel counts the attempts its definition says",
  statement="For every funnel (steps in exact or any order, several events per step, filters, window, excluded events, held constants, first-touch and unique counting, breakdowns, time buckets) each step of the report has exactly the numbers of conversions and drop-offs, the times and the ratios that follow from walking through each user's events in order of time: an attempt begins with the first step, goes on with each next step within the window, is discarded by an excluded event or another value of a held constant, and no user's events take part in another's attempt; how the rows are split into batches does not matter.",
  over=["inputs", "histories"], text="every funnel over every history of events of several users, split into batches anywhere",
  why="The tests walk through single scenarios of one batch; carried state, ends of users and batches and combinations of options are where it goes wrong.",
  files=[F+"funnel.rs", X+"aggregate/partitioned/funnel/funnel.rs", PP+"funnel.rs", F+"logical_plan/funnel.rs"],
  mech=[("attempts", X+"aggregate/partitioned/funnel/funnel.rs"), ("partitions and totals", PP+"funnel.rs"), ("report", F+"funnel.rs")],
  technique="model-based property-based testing: random funnels and histories against a reference walk, at the level of batches and of reports",
  note="Times of a user's events differ; funnel filters by touch and counting by session, which have no effect in the code, are not covered."),
 dict(id="Q05", title="Event records are the events that match, newest first",
  statement="For every search for event records (time range, events with filters, filters, chosen properties) the answer has the up to 100 newest matching events of the project, by id descending, with each chosen property once, described by its own name and with the event's value or null; without a choice all the project's properties are shown and no one else's; and the record of an id has the values of the event, while an id the project doesn't have is an error.",
  over=["inputs"], text="every search over every set of events, with nulls, dictionary values and custom events",
  why="The tests print one result; columns out of step with their description and missing values show only for particular choices.",
  files=[F+"event_records.rs", F+"lib.rs", F+"expr.rs", F+"logical_plan/rename_columns.rs"],
  mech=[("search and record", F+"event_records.rs"), ("values of dictionaries", PP+"dictionary_decode.rs")],
  technique="property-based testing of random searches and event sets against a reference that filters the rows",
  note="The id of an event may be shown first unasked."),
 dict(id="Q06", title="Group records are the latest of each group that match",
  statement="For every search for group records (optional time range, filters, chosen properties, sort) the answer has each matching group of the project once, with the values last stored, up to 100 and sorted as asked, each column described by its own property; and the record of a name has its last values, while a name without a record is an error.",
  over=["inputs", "histories"], text="every history of stored group records and every search",
  why="There are no tests of it; replaced records, columns and sorting matter only in combinations.",
  files=[F+"group_records.rs", "src/storage/src/memtable.rs", F+"lib.rs", F+"expr.rs"],
  mech=[("search and record", F+"group_records.rs"), ("replacing", "src/storage/src/memtable.rs")],
  technique="property-based testing of random histories and searches against a reference",
  note="The records of a group are in memory or in one part: merging of parts of group tables is a known finding. The order of texts is not covered."),
 dict(id="Q07", title="The values of a property are the distinct ones of matching events",
  statement="For every event property, optional event (also a custom one) and optional filter, the list of values has each value the property has in the matching events of the project exactly once, in order, a missing value last.",
  over=["inputs"], text="every property type, event and filter over every set of events",
  why="The tests list one property of one event.",
  files=[F+"properties.rs", F+"expr.rs", F+"lib.rs"],
  mech=[("values", F+"properties.rs"), ("filters", F+"expr.rs")],
  technique="property-based testing of random requests and event sets against a reference",
  note="Fewer than 1000 values."),
]
