F = "src/metadata/src/"
H = ["histories"]
P = [
 dict(id="M01", title="Metadata reads return exactly what the last writes stored",
  statement="After any history of create, update and delete calls on events, custom events, properties, dashboards, reports, teams, accounts, projects, organizations and backups, with the database reopened between them, get and list return exactly the live entities of a project with every field as last written. Fields that an update does not set stay as they were.",
  over=["histories", "inputs"], text="every history of calls over all entity kinds, with all fields and nested report queries, filters and panels",
  why="Tests create and read one entity of a kind with fixed fields; the loss of one field of one kind on one update path needs that very combination.",
  files=[F+x for x in ("events.rs","custom_events.rs","properties.rs","dashboards.rs","reports.rs","teams.rs","accounts.rs","projects.rs","organizations.rs","backups.rs")],
  mech=[("serialization to and from the stored messages", F+"reports.rs"), ("partial updates", F+"properties.rs update")],
  technique="stateful model-based testing of random call histories against maps of entities",
  note="The key-value store underneath is a model of rocksdb's TransactionDB written for this harness. Up to 60 calls per history."),
 dict(id="M02", title="Names identify at most one entity, and the right one",
  statement="Creating or renaming an event, custom event or property to a name another live entity of that kind in the project has is refused and changes nothing; after a rename or delete the old name is free. Looking up a name finds exactly the live entity that carries it. So do account emails, project names and tokens and organization names.",
  over=["histories"], text="every history of creations, renames and deletions over few names",
  why="A stale or lost index entry shows after several renames and deletions only.",
  files=[F+"index.rs", F+"events.rs", F+"properties.rs", F+"accounts.rs", F+"projects.rs"], mech=[("unique index maintenance", F+"index.rs")],
  technique="stateful model-based testing with colliding names",
  note="Four names, up to 40 calls per history."),
 dict(id="M03", title="What one project stores is invisible to every other project",
  statement="Entities, dictionary values, property columns, sessions, identities and groups of a project depend on the calls made for that project alone: interleaving calls for other projects, with ids that are prefixes of each other and names that look like storage keys, changes no result.",
  over=["histories", "inputs"], text="every interleaving of histories of several projects with adversarial ids and names",
  why="Tests use one or two projects; a key-prefix collision needs particular ids or names.",
  files=[F+"lib.rs", F+"index.rs", F+"dictionaries.rs", F+"groups.rs", F+"sessions.rs"], mech=[("key construction and prefix listing", F+"lib.rs make_data_key, list_data")],
  technique="differential testing of interleaved against separate histories, and model-based testing",
  note="Projects 1, 11, 2 and 111. Column numbers are shared by design and not compared."),
 dict(id="M04", title="Concurrent metadata calls neither collide nor lose updates",
  statement="When threads create events, properties, dictionary values, users and other entities at once, every id handed out is unique, equal names yield one entity and one id, every acknowledged creation is readable by id, name and list, and ids grow.",
  over=["schedules"], text="schedules of up to 8 threads of creating and looking-up calls",
  why="Tests are sequential; the window between reading and writing a sequence or an index is never hit.",
  files=[F+"lib.rs", F+"dictionaries.rs", F+"properties.rs", F+"groups.rs"], mech=[("id sequences", F+"index.rs next_seq"), ("get-or-create", F+"dictionaries.rs")],
  technique="concurrent stress with random programs per thread and an invariant on the results",
  note="Real threads, with random pauses; the schedule is not controlled, so a failure may need several replays."),
 dict(id="M05", title="Dictionaries map values to ids and back without confusion",
  statement="get_or_create returns the same id for the same value for ever and different ids for different values of a dictionary; get_value and get_key invert each other, also after reopening. The events table's dictionary gives an event's id its own name whatever events are renamed, deleted or created again.",
  over=["histories", "inputs"], text="every history of lookups and creations over several dictionaries and values that look like keys",
  why="Tests look up two values of one dictionary.",
  files=[F+"dictionaries.rs", F+"events.rs"], mech=[("value and key maps", F+"dictionaries.rs get_key_or_create")],
  technique="stateful model-based testing against maps",
  note="Up to four dictionaries and three projects per history."),
 dict(id="M06", title="Every property has its own table column of its own type",
  statement="Creating a property adds the column it names to the table it belongs to, with the type it asks for (dictionary ids for dictionaries), live properties of a project never share a column, properties of the same type in other projects may, refused creations leave nothing behind, and all of it holds after reopening.",
  over=["histories"], text="every history of property creations over all types, tables and projects",
  why="Tests create a few properties of one project.",
  files=[F+"properties.rs", "src/storage/src/db.rs"], mech=[("choice of the column number and addition of the column", F+"properties.rs create")],
  technique="stateful model-based testing against the schemas of the real storage tables",
  note="Runs over the real storage crate."),
 dict(id="M07", title="An event keeps exactly the properties attached to it",
  statement="After any history of attach and detach calls with event and user properties, an event lists exactly those attached and not detached since; attaching twice or detaching what is not attached is refused; other fields and events stay as they are.",
  over=H, text="every history of attachments over several events and projects",
  why="Tests attach one property once.",
  files=[F+"events.rs"], mech=[("attach and detach", F+"events.rs attach_event_property")],
  technique="stateful model-based testing against sets", note="Up to 40 calls per history."),
 dict(id="M08", title="Custom events never nest in circles or deeper than allowed",
  statement="Creating or updating a custom event succeeds exactly if every event it refers to exists, no chain of references leads back to it or repeats an event, and no chain is longer than the limit; otherwise it is refused and nothing changes.",
  over=["histories", "inputs"], text="every history of custom events that refer to each other and to events, by name and by id",
  why="Tests try two fixed shapes; validity is a property of the whole reference graph.",
  files=[F+"custom_events.rs"], mech=[("validation of references", F+"custom_events.rs validate_event")],
  technique="stateful model-based testing against a graph search", note="Up to 9 custom events per history."),
 dict(id="M09", title="A session begins once and ends once, when it is due",
  statement="set_current_time reports a new session exactly if the user had none, keeps a running session's beginning and last time, and check_for_deletion removes exactly the sessions last active before the cut-off, once each, with their beginning and end; clearing a project removes only its sessions.",
  over=H, text="every history of activity, expiry and clearing over several projects and users",
  why="Tests run one session.",
  files=[F+"sessions.rs"], mech=[("session keys and expiry scan", F+"sessions.rs")],
  technique="stateful model-based testing against maps", note="Up to 60 calls, four projects and reopenings per history."),
 dict(id="M10", title="An identity keeps its number, also when users are merged",
  statement="get_or_create_anonymous, create_or_update and merge_with_anonymous give one number per identity: new ones are fresh, known ones keep theirs, a merged anonymous id and its user share one, and values set on a group member are kept until replaced. Group names get one group number each, up to the limit.",
  over=["histories", "inputs"], text="every history of anonymous, identified and merged identities in several projects and groups",
  why="Tests merge one user once; a broken sequence shows with later identities.",
  files=[F+"groups.rs"], mech=[("identity to number maps", F+"groups.rs merge_with_anonymous")],
  technique="stateful model-based testing against maps", note="Up to 60 calls per history."),
 dict(id="M11", title="Membership is told alike by accounts and organizations",
  statement="After any history of creating and deleting organizations and accounts and of adding, removing and changing members, an account lists an organization exactly if the organization lists the account, with the role last given, and refused calls change nothing.",
  over=H, text="every history of membership calls over several accounts and organizations",
  why="Tests add one member; agreement of two records depends on the history.",
  files=[F+"organizations.rs", F+"accounts.rs"], mech=[("membership stored on both sides", F+"organizations.rs add_member")],
  technique="stateful model-based testing and an agreement invariant",
  note="The deletion of accounts that are members is a recorded finding and not generated in the histories."),
 dict(id="M12", title="Settings and bookmarks are stored whole and checked before saving",
  statement="Loaded settings equal the last saved ones in every field, also after reopening; settings whose backup provider or encryption lacks what it requires are refused and change nothing. A bookmark's id is fresh and returns its query to the project it was made in only.",
  over=["configurations", "histories"], text="every combination of settings and every history of saves",
  why="Tests save one configuration, so a field that is dropped goes unnoticed.",
  files=[F+"settings.rs", F+"bookmarks.rs"], mech=[("validation and serialization of settings", F+"settings.rs")],
  technique="round-trip and stateful testing over random configurations",
  note="Strings are short."),
]
