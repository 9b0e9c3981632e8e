C = "src/cmd/src/"
P = [
 dict(id="X01", title="A completed backup restores the data; each due time gives one backup",
  statement="For every history of the server's backup task (time passing, schedule and provider settings changing, backups asked for, data written, disk full, storage refusing, restarts): while backups are on, a backup asked for is made at the next look of the scheduler (every 10 s), and one is made in each minute the schedule names (UTC) unless one has been made or asked for in that minute, and none otherwise; a backup ends Completed only if the file at the path its record names (backups directory or bucket) restores exactly the rows of the moment, under the record's password if it has one; otherwise it ends Failed, and then nothing has been stored or overwritten and no temporary file or open upload is left; nothing standing in its way, it does not fail; a backup that was in progress or uploading when the server stopped is Failed after the start, its temporary file gone; whatever happens to one, later ones are made; while backups are off nothing happens.",
  over=["histories", "fault_sequences"], text="every history of up to fourteen steps over a virtual clock, with faults of disk and storage and restarts",
  why="No test runs the backup task: schedules take days, and a failure of the disk, of the upload or of the process at the right moment is needed to see what a backup's status is worth.",
  files=[C+"backup.rs", "src/metadata/src/backups.rs", "src/metadata/src/settings.rs", "src/storage/src/db.rs"],
  mech=[("schedule", C+"backup.rs"), ("archive", C+"backup.rs"), ("upload", C+"backup.rs"), ("reset at the start", C+"backup.rs")],
  technique="model-based property-based testing of random histories with injected faults over a virtual clock, restoring every completed backup",
  note="Archive format, cron library and bucket are stand-ins (see DESIGN.md). Two local backups of one hour have one file name: the later replaces the earlier. S3 is not implemented: such a backup has to fail."),
 dict(id="X02", title="A session ends once, when its time is over, with one event",
  statement="For every history of users' events, rounds of the session cleaner, projects made, changed and deleted, and deleted events and properties: a round ends exactly the sessions whose last event is the project's session duration or longer ago; for each it stores one Session End event of that user and project, at the time of the round and with the session's length in seconds, under a number of its own, and the session is gone; all others stay as they are; a project in which no session can be ended does not keep those of others from ending; rounds follow each other in the configured interval.",
  over=["histories"], text="every history of up to fourteen steps of up to five projects and six users over a virtual clock",
  why="The cleaner is a thread of the server that no test starts; sessions last an hour or a day.",
  files=[C+"lib.rs", "src/metadata/src/sessions.rs", "src/metadata/src/events.rs"],
  mech=[("cleaner", C+"lib.rs"), ("sessions", "src/metadata/src/sessions.rs")],
  technique="model-based property-based testing of random histories over a virtual clock, stepping the cleaner's thread",
  note="An event that arrives while a round runs is not generated. What becomes of the sessions of a project without the end event is left open."),
 dict(id="X03", title="The server starts from its configuration and keeps what it had",
  statement="Each member of the configuration file becomes the member of that name of the running configuration, durations and levels as written, and a duration that is none is refused. For every sequence of starts over one directory, some refused for a missing file: the first makes the keys, one organization and one administrator whose generated password logs in; every later one keeps keys, settings, accounts, organizations, projects, tables and events, so that tokens of an earlier run are still good; events sent to a project of an earlier run are stored.",
  over=["configurations", "histories"], text="every configuration, and every sequence of up to four starts with requests in between",
  why="No test starts the server; what a second start overwrites shows only with two starts, and a swapped member of the configuration only with distinct values in all of them.",
  files=[C+"config.rs", C+"lib.rs", C+"command/server.rs", "src/metadata/src/settings.rs"],
  mech=[("configuration", C+"config.rs"), ("settings and keys", C+"lib.rs"), ("start", C+"command/server.rs")],
  technique="property-based testing: random configurations against the document they come from, random sequences of starts of the server over the loopback against the state before",
  note="The servers stop by being dropped, not by a crash (S and M properties have those). Metrics are not looked at."),
]
