F = "src/platform/src/"
H = F + "http/"
M = "src/metadata/src/"
P = [
 dict(id="P01", title="Only who may do a thing can do it",
  statement="For every request to the interface, with any token (none, malformed, expired, signed with another key or algorithm, tampered with, a refresh token, of an account that is gone) and for every combination of roles in organizations, teams and projects: it is answered as granted exactly if the token is valid and the account's roles permit it (an administrator's everything; an organization owner's everything of it and its projects; a project owner's everything of the project, its admins' managing of members, reports and schema, its members' of reports and schema, its readers' queries and looking at reports and schema), else with 401 or 403 and without any effect on what is stored.",
  over=["inputs", "configurations"], text="every endpoint, every combination of roles of accounts in several organizations and projects, every kind of token",
  why="No test makes a request; a permission checked against the wrong project, organization or role shows only over the whole matrix.",
  files=[F+"context.rs", H+"mod.rs", F+"lib.rs", F+"auth/provider.rs", F+"auth/token.rs", F+"projects.rs", F+"accounts.rs", F+"organizations.rs", F+"dashboards.rs", F+"reports.rs", F+"events.rs", F+"properties.rs"],
  mech=[("permissions", F+"context.rs"), ("tokens", F+"auth/token.rs"), ("roles", "src/common/src/rbac.rs")],
  technique="property-based testing of random requests by random accounts over HTTP against a reference matrix of permissions",
  note="Whether a granted request then succeeds is the subject of the other properties."),
 dict(id="P02", title="One project's or organization's things are out of reach from another's",
  statement="For every request made under a project or organization with the ids and names of things of another one (events, properties, dashboards, reports, custom events, group records, backups, members), nothing of the other project or organization is in the answer and nothing of it changes; lists contain what belongs to the project and nothing else.",
  over=["inputs", "histories"], text="every history of requests that mix ids and names of several projects and organizations",
  why="No test has two projects; ids are numbered alike in each, so that a missing project in a lookup shows only with two of them.",
  files=[F+"events.rs", F+"properties.rs", F+"dashboards.rs", F+"reports.rs", F+"custom_events.rs", F+"group_records.rs", F+"event_records.rs", F+"organizations.rs", M+"index.rs", M+"events.rs", M+"properties.rs"],
  mech=[("lookups", M+"index.rs"), ("paths", H+"mod.rs")],
  technique="property-based testing of random histories over HTTP, comparing answers with and states of the other projects before and after",
  note="Columns of events are shared among projects on purpose (see M06's finding)."),
 dict(id="P03", title="Accounts log in with their own password, into an organization of theirs",
  statement="For every history of sign ups, log ins, token refreshes, changes of password, name and email, organizations and roles: a log in succeeds exactly with the account's current email and password, and its tokens are of that account and an organization it belongs to; a refresh token gives new tokens exactly for its account until it expires; a password or email is changed only with the right password and to a valid one; no answer contains a password or its hash; and what is not given in an update stays.",
  over=["histories"], text="every history of account requests by several accounts, with right, wrong, old and missing values",
  why="No test runs the account interface; stale passwords, organizations that are gone and partial updates show only in histories.",
  files=[F+"auth/provider.rs", F+"auth/token.rs", F+"auth/password.rs", F+"accounts.rs", H+"auth.rs", H+"accounts.rs", M+"accounts.rs", M+"organizations.rs"],
  mech=[("accounts and tokens", F+"auth/provider.rs"), ("hashing", F+"auth/password.rs")],
  technique="model-based property-based testing of random histories over HTTP against a reference of accounts and memberships",
  note="The hash function and the strength of passwords are stand-ins (see DESIGN.md); tokens are not revoked when a password changes, by design of the code."),
 dict(id="P04", title="What is stored through the interface is what is read from it",
  statement="For every history of creations, updates and deletions of events, custom events, properties, group properties, dashboards, reports, projects, organizations, accounts, groups and settings: each thing is read, alone and in its list, with exactly the values given last, in the same form they were given (queries of reports with all their parts, filters with their values, decimals to their scale); absent values of an update stay as they were; null clears; creator, times and ids are the server's; deleted things are gone; attached properties are those attached; secrets are not shown.",
  over=["histories"], text="every history of up to twenty requests of every kind, with every shape of report, filter and panel",
  why="Requests pass five conversions (JSON, platform, common, metadata's bytes and back), written by hand and untested; a member lost in one of them shows only for that member's values.",
  files=[F+"events.rs", F+"custom_events.rs", F+"properties.rs", F+"dashboards.rs", F+"reports.rs", F+"projects.rs", F+"organizations.rs", F+"accounts.rs", F+"settings.rs", F+"groups.rs", F+"funnel.rs", F+"event_segmentation.rs", F+"lib.rs", M+"reports.rs", M+"custom_events.rs", M+"settings.rs"],
  mech=[("conversion of queries", F+"event_segmentation.rs"), ("conversion of funnels", F+"funnel.rs"), ("optional members", F+"lib.rs"), ("bytes", M+"reports.rs")],
  technique="model-based property-based testing of random histories over HTTP against a reference store of the JSON sent",
  note="Properties named by reports are not looked up. A property of an unknown id can be attached to an event, as the code has it."),
 dict(id="P05", title="A query over HTTP is answered from the project's rows",
  statement="For every event segmentation, funnel, event search, group search and values query a client can send as JSON, in the regular and the compact form: the answer has the columns the query asks for, named and typed by their kind, and the values a direct computation over the rows of the project gives, to a thousandth, at the time the request names; filters on every type of property select the rows their operation describes.",
  over=["inputs", "configurations"], text="every generated query over generated worlds of events, users and groups",
  why="No test sends a query; conversions of filters, times, decimals and of the answer lie between the client and the engine checked by the Q properties.",
  files=[F+"event_segmentation.rs", F+"funnel.rs", F+"event_records.rs", F+"group_records.rs", F+"properties.rs", F+"lib.rs", H+"event_segmentation.rs", H+"funnel.rs", "src/query/src/lib.rs", "src/query/src/event_segmentation.rs", "src/query/src/funnel.rs"],
  mech=[("requests", F+"lib.rs"), ("answers", F+"lib.rs"), ("filters", "src/query/src/lib.rs")],
  technique="property-based testing of random queries as JSON over HTTP against nested loops over the rows as oracle",
  note="Segments are refused as unimplemented; of filter groups the first is used; text columns are not compared by order (the interface refuses it)."),
 dict(id="P06", title="Every request is answered, and a refused one changes nothing",
  statement="For every sequence of requests, well-formed or not (mutated members, types, numbers at the limits, unknown names and ids, bytes that are no JSON, paths, headers): each is answered as granted or with an error of the client (4xx) or as not implemented (501), never with an internal error (500) and never by a panic; what is refused leaves everything stored as it was; and a plain query afterwards is answered.",
  over=["inputs", "histories"], text="every generated request and mutation of one, on worlds with data",
  why="Every unwrap on what a client sends is a way to end the request or the server; no test sends a wrong request.",
  files=[F+"lib.rs", F+"error.rs", F+"event_segmentation.rs", F+"funnel.rs", F+"event_records.rs", F+"group_records.rs", F+"properties.rs", H+"mod.rs", "src/query/src/expr.rs", "src/query/src/lib.rs", "src/query/src/logical_plan/funnel.rs"],
  mech=[("validation", F+"lib.rs"), ("errors", F+"error.rs")],
  technique="grammar-based fuzzing of requests over HTTP (valid ones, then mutated at random members), with the answer's status and the stored state as oracle",
  note="Queries of more than 1500 intervals are not sent: the answer has a column for each. Known findings: patterns on id columns, breakdowns by columns every record has, breakdowns by two properties of a name."),
]
