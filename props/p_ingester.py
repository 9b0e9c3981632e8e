I = "src/ingester/src/"
M = "src/metadata/src/"
P = [
 dict(id="I01", title="A tracked event that is accepted is stored once, as it was sent",
  statement="Every track request that is answered with success adds exactly one event to its project: with the event's name, the time sent (or the time of the request), the user, the named groups and every property with the value sent (texts, numbers to the scale of their column, truth values, dates), together with the current properties of the user and the groups named; nothing else is added but the beginning of a session, also when several clients send at once and across restarts; events, properties and groups come to exist once, with the type first seen, and the properties belong to the event.",
  over=["histories", "inputs", "schedules"], text="every history of track and identify requests to several projects over HTTP, and concurrent clients",
  why="The only test parses one payload; values, types, groups, dates and concurrent requests are not tested at all.",
  files=[I+"executor.rs", I+"destinations/local/track.rs", I+"lib.rs", I+"sources/http/mod.rs", M+"events.rs", M+"properties.rs", "src/storage/src/db.rs"],
  mech=[("request to row", I+"destinations/local/track.rs"), ("conversion of values", I+"lib.rs"), ("resolution", I+"executor.rs"), ("parsing", I+"sources/http/mod.rs")],
  technique="model-based property-based testing of random request histories against a reference store, and of random concurrent clients",
  note="The context's page and library are not stored by the code. Numbers have up to 12 digits before the point; dates are in milliseconds. The record id only has to be distinct and increasing."),
 dict(id="I02", title="A visitor keeps one identity from anonymous to known",
  statement="For every history of requests with user ids, anonymous ids or both: the same user id always stands for the same stored user; the same anonymous id for the same visitor; a user first seen together with an anonymous id is that visitor from then on, a user known before keeps the own identity; users never linked by a shared anonymous id are different; and the name of each stored user or group can be looked up.",
  over=["histories"], text="every history of user and anonymous ids in track and identify requests, with ids that are the same text",
  why="Merging depends on the order in which ids have been seen; nothing tests it.",
  files=[I+"executor.rs", M+"groups.rs", M+"dictionaries.rs"],
  mech=[("choice of identity", I+"executor.rs"), ("keys and numbers", M+"groups.rs"), ("names", M+"dictionaries.rs")],
  technique="model-based property-based testing of random histories against a reference of identities",
  note="Numbers are compared up to renaming. When several names lead to one identity, its display name may be any of them."),
 dict(id="I03", title="A session begins once, with the first event after the last ended",
  statement="For every history of events and ended sessions, a session-begin event is stored exactly with each accepted event of a user who has no open session, before that event, at the same time, for the same user and groups, with the address and the campaign of the request; refused events neither begin sessions nor prevent it.",
  over=["histories"], text="every history of accepted and refused events, ends of sessions and restarts",
  why="The tests of sessions store times; that a session is begun and ended with the events around it shows only in histories.",
  files=[I+"destinations/local/track.rs", M+"sessions.rs", "src/cmd/src/lib.rs"],
  mech=[("begin", I+"destinations/local/track.rs"), ("open sessions", M+"sessions.rs")],
  technique="model-based property-based testing of random histories against a reference of open sessions",
  note="Sessions are ended through the metadata call the server's cleaner uses; the cleaner thread itself is not run."),
 dict(id="I04", title="A request that cannot be taken is refused and stores nothing",
  statement="For every request with an unknown token, without a user, with malformed or incomplete JSON, with a property of another type than the known one, with a number that no column can hold or with a group too many, the answer is an error (404 for the token, 400 for malformed requests), no event and no record is stored, and the service goes on to serve later requests correctly.",
  over=["inputs", "histories"], text="every kind of bad request at any point of a history",
  why="Errors are not tested; a panic in a request ends ingestion for all, which only the requests afterwards show.",
  files=[I+"executor.rs", I+"lib.rs", I+"error.rs", I+"sources/http/mod.rs"],
  mech=[("checks", I+"executor.rs"), ("conversion", I+"lib.rs"), ("status", I+"error.rs")],
  technique="property-based testing with generated bad requests inside random histories against the reference store",
  note="Definitions of events and properties a refused request named may remain."),
 dict(id="I05", title="Identify keeps the latest properties of users and groups",
  statement="For every history of identify requests, the newest stored record of each user or group has, for each property ever given for it, the value given last, and the time of the last call; records of others are not touched, each record is a version newer than the one before, its id and texts can be looked up, and later events of it carry these values.",
  over=["histories"], text="every history of identify and track requests on several projects and groups",
  why="Nothing tests identify; merging of values, versions and dictionaries show only over histories.",
  files=[I+"executor.rs", I+"destinations/local/identify.rs", M+"groups.rs", M+"dictionaries.rs"],
  mech=[("merging", M+"groups.rs"), ("record", I+"destinations/local/identify.rs"), ("dictionaries", I+"executor.rs")],
  technique="model-based property-based testing of random histories against a reference of records",
  note="Older versions may remain beside the newest until they are merged away."),
 dict(id="I06", title="Events are enriched with place, client and campaign",
  statement="For every event sent, the stored event has the country and city its address (the one sent, else the client's) is known under, and, if a user agent was sent, the client's, device's and system's family and the versions, brand and model the parser finds, each in its own property, never overwriting a property sent; the campaign is stored with the beginning of a session.",
  over=["inputs"], text="every combination of parts the geo database and the parser find",
  why="The transformers have no tests.",
  files=[I+"transformers/geo/mod.rs", I+"transformers/geo/track.rs", I+"transformers/user_agent/mod.rs", I+"transformers/user_agent/track.rs", I+"destinations/local/track.rs"],
  mech=[("place", I+"transformers/geo/mod.rs"), ("client", I+"transformers/user_agent/mod.rs"), ("campaign", I+"destinations/local/track.rs")],
  technique="property-based testing of random contexts against a reference, with a stand-in geo database and user agent parser",
  note="The geo database and the parser are stand-ins which return any combination of parts. The patch version of the client is not compared: the code does not store it."),
]
