import json,os
def p(id,title,st,over,text,why,files,mech,obs,note,harness="h_app"):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs}
    return {"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a,"_check":{"harness":harness,"note":note}}
I="src/ingester/src/"
base="Seeded search, not exhaustive. The real server (start-up, HTTP routers, ingester, platform, metadata, storage, session cleaner) runs in one simulated process; clients send HTTP requests; after the last life the tables and the metadata are read back and compared with the recorded history."
L=[
p("C18","An accepted event is stored exactly once, with exactly what was sent",
 "Every event whose track request was answered with success is stored exactly once under its project, with its event name, time, properties of every type, location and device details derived from the request, and its event definition lists its properties; a refused event is not stored, valid events are not refused, the project counts each accepted event once. This holds for concurrent clients, several projects, failing disk writes and commits, and crashes and restarts at any point.",
 ["inputs","schedules","crash_points","fault_sequences","histories"],"every mix of valid and invalid events from up to three clients into two projects, every crash point, failing write, full disk or failing commit",
 "The ingester has no test that runs the real storage; a lost or doubled row needs a crash or a failing write between the steps of one request.",
 [I+"executor.rs",I+"destinations/local/track.rs",I+"lib.rs",I+"transformers/geo/mod.rs",I+"transformers/user_agent/mod.rs","src/storage/src/db.rs","src/metadata/src/events.rs"],
 [("resolve, transform, store",I+"executor.rs execute"),("row",I+"destinations/local/track.rs send"),("values",I+"lib.rs property_to_value"),("counter","src/metadata/src/projects.rs increment_events_counter")],
 "rows of the events table after the run; HTTP answers",base),
p("C19","Every stored event belongs to the user, group and event it was sent for",
 "All events of one user id have one numeric user, two user ids never share one, an anonymous id that was linked to a user by the first event naming both is that user, and every numeric event, user, group and group key in a row reads back through the dictionaries as the very name that was sent, whatever properties clients send, whichever event definitions are deleted, and however requests interleave.",
 ["inputs","schedules","histories"],"every interleaving of events that name users, anonymous ids, groups and new event names, with reserved property names and deletions of event definitions",
 "Ids are handed out by several independent sequences that must agree; tests use one user and never delete an event.",
 [I+"executor.rs","src/metadata/src/groups.rs","src/metadata/src/dictionaries.rs","src/metadata/src/events.rs"],
 [("identity",I+"executor.rs execute (user_id, anonymous_id)"),("merge","src/metadata/src/groups.rs merge_with_anonymous"),("names of ids","src/metadata/src/dictionaries.rs create_key"),("event ids","src/metadata/src/events.rs create_")],
 "group_N and event columns of stored rows, dictionaries",base),
p("C20","Identified users and groups keep their latest properties, also on events",
 "After identify requests are answered, the group table has exactly one row per identified user or group key with, for every property, the value of a latest request that set it and the time of a latest request; every event of an identified user or group carries the group's properties as they were when the event was handled. Concurrent identifies of one key, flushes, compactions and restarts lose nothing.",
 ["inputs","schedules","histories"],"every interleaving of identify and track requests over a few keys of three groups, with maintenance and restarts",
 "The versions of a row meet only when a scan or compaction merges them; no test runs identify against the real tables.",
 [I+"executor.rs",I+"destinations/local/identify.rs",I+"destinations/local/track.rs","src/metadata/src/groups.rs","src/storage/src/memtable.rs","src/storage/src/parquet/arrow_merger.rs","src/storage/src/parquet/parquet_merger.rs","src/cmd/src/lib.rs"],
 [("identify",I+"executor.rs Executor<Identify>::execute"),("versions","src/cmd/src/lib.rs init_storage group tables"),("attach",I+"destinations/local/track.rs send"),("merge of values","src/metadata/src/groups.rs create_or_update")],
 "rows of group tables and group properties in event rows",base),
p("C21","Sessions begin and end exactly when the user's activity does",
 "A user's first event after inactivity stores one session begin right before it, no begin is stored while a session is open, an inactive session is ended once, not before the session duration has passed since the user's last event and not later than the cleaner's next rounds, and begin, events and end of a user never overlap. Refused requests begin nothing; failing disks delay the end but never prevent it; restarts keep open sessions.",
 ["schedules","histories","fault_sequences","crash_points"],"every timing of events around the end of a session, every interleaving with the cleaner, clock-driven, with crashes and failing writes or commits",
 "It depends on clocks, the cleaner thread and races between the cleaner and events; there is no test of the cleaner at all.",
 [I+"destinations/local/track.rs","src/cmd/src/lib.rs","src/metadata/src/sessions.rs"],
 [("begin",I+"destinations/local/track.rs is_new_session"),("end","src/cmd/src/lib.rs init_session_cleaner"),("state","src/metadata/src/sessions.rs set_current_time, check_for_deletion")],
 "Session Begin and Session End rows in the order of their ids",base),
p("C22","The server starts again after any crash or failure, with everything kept",
 "Whatever happened before - a crash at any step of the first start or of any later life, a failing disk while starting - the next start succeeds without operator intervention: the administrator can log in (with the printed password or the last one that was set), there is exactly one first organization, every project, account, token and setting that was acknowledged is there unchanged, every listed project is completely set up and can store and read events, and access tokens issued before keep working.",
 ["crash_points","fault_sequences","histories"],"every crash point and failing write or commit within first start, restarts, project and account creation, up to four lives",
 "First start and project creation are sequences of many separate commits; tests never stop between them.",
 ["src/cmd/src/command/server.rs","src/cmd/src/lib.rs","src/platform/src/projects.rs","src/platform/src/lib.rs","src/storage/src/db.rs","src/metadata/src/settings.rs"],
 [("first start","src/cmd/src/command/server.rs start, src/cmd/src/lib.rs init_settings, get_random_key"),("project set-up","src/platform/src/projects.rs create, setup_project, src/cmd/src/lib.rs init_project"),("tables","src/cmd/src/lib.rs init_storage")],
 "start-up result, HTTP answers of the next life, tables and metadata read back",base),
p("C23","A completed backup restores everything stored before it was taken",
 "A backup shown as completed is where it was configured to be (local directory, or the bucket and path of its provider), in the configured encryption, and restoring it into an empty server gives every event accepted before the backup was requested exactly once and nothing later than its completion; no later backup overwrites it, and nothing incomplete ever lies under the name of a backup. Concurrent ingestion, changed settings, failing disks or uploads and crashes do not change this.",
 ["schedules","crash_points","fault_sequences","histories"],"every interleaving of backups with events and changes of the settings, every crash point, failing write, full disk, failing upload",
 "The worth of a backup shows only when it is restored, and its failures need a fault in the middle of it; no test runs the backup job.",
 ["src/cmd/src/backup.rs","src/storage/src/db.rs","src/metadata/src/backups.rs"],
 [("run","src/cmd/src/backup.rs run_backup, backup_to_tmp, backup_local, backup_gcp"),("data","src/storage/src/db.rs full_backup, full_restore"),("what was configured","src/metadata/src/backups.rs CreateBackupRequest::from_settings, Backup::path")],
 "files and uploaded objects after the run, restored into an empty database",base+" The zip container and the object store are stubs with the same interface."),
p("C24","Backups run when requested or scheduled, and always come to an end",
 "A requested backup is carried out, a scheduled one exactly once in its minute and none when it is not due, with the settings in force; the state of a backup only advances and every backup ends as completed or failed, failed only for a reason; a failure or crash leaves no temporary data and never stops later backups; settings that are accepted take effect, impossible ones are refused.",
 ["schedules","crash_points","fault_sequences","histories"],"every timing of requests, changes of the schedule, hours, days, weeks and years that begin, crashes and failing commits, disks and uploads",
 "It depends on the clock and on failures inside a background task that no test runs.",
 ["src/cmd/src/backup.rs","src/platform/src/backups.rs","src/platform/src/settings.rs","src/metadata/src/backups.rs","src/metadata/src/settings.rs"],
 [("scheduler","src/cmd/src/backup.rs init, run_scheduled"),("request","src/platform/src/backups.rs backup"),("settings","src/platform/src/settings.rs set, src/metadata/src/settings.rs validate")],
 "list of backups over HTTP and in the metadata against the simulated time",base),
p("C25","Only the right credentials, and only while they are valid, let anyone in",
 "A login, refresh, sign-up or change of password or address succeeds exactly when it should: with the password the account has at that moment (never an earlier one), for an existing account, with a token of the right kind that was signed by this server and has not expired; the tokens given are for that account and one of its organizations, a refresh works for as long as the refresh token lives. Requests without a valid token are refused with 401 and change nothing; deleted accounts are out at once; two accounts never share an address; passwords are never stored or shown. Concurrent changes, failing commits, crashes and restarts do not change this.",
 ["inputs","schedules","histories","crash_points","fault_sequences"],"every sequence and interleaving of logins, refreshes, password, address and role changes, deletions and forged, expired or swapped tokens over two to five accounts, with clocks that move, crashes and failing commits",
 "Needs tokens that expire, accounts that change while tokens are out, and crashes between; no test of the repository logs in against the running server.",
 ["src/platform/src/auth/provider.rs","src/platform/src/auth/token.rs","src/platform/src/auth/password.rs","src/platform/src/context.rs","src/platform/src/http/auth.rs","src/platform/src/accounts.rs","src/metadata/src/accounts.rs"],
 [("login, refresh, passwords","src/platform/src/auth/provider.rs"),("tokens","src/platform/src/auth/token.rs make_access_token, parse_access_token"),("who asks","src/platform/src/context.rs from_request_parts"),("accounts","src/metadata/src/accounts.rs update, delete")],
 "HTTP answers and issued tokens against a register model of every account; raw metadata after the run",base+" Password hashing is a stub with the same interface."),
p("C26","Every request does exactly what the roles of the account allow",
 "Each operation of the API is carried out when the account's roles at that moment (server, the organization its token is for, the project) grant the permission it needs according to the role tables, and is refused otherwise without any effect; a role in one organization or project gives nothing in another, answers show nothing that belongs to another project or organization, and changed roles count for the next request although tokens stay.",
 ["inputs","schedules","histories","crash_points","fault_sequences"],"46 operations of the API by accounts with every mix of roles over two to three organizations and three projects, while roles change and the server restarts",
 "The check is a product of roles, operations, organizations and histories that no sample covers, and leaks show only with several tenants at once.",
 ["src/platform/src/context.rs","src/common/src/rbac.rs","src/platform/src/projects.rs","src/platform/src/organizations.rs","src/platform/src/accounts.rs","src/platform/src/dashboards.rs","src/platform/src/reports.rs","src/platform/src/bookmarks.rs","src/platform/src/events.rs","src/platform/src/custom_events.rs","src/platform/src/properties.rs"],
 [("decision","src/platform/src/context.rs check_permission, check_organization_permission, check_project_permission"),("role tables","src/common/src/rbac.rs"),("operations","src/platform/src/*.rs")],
 "HTTP answers against the role tables; marks of refused and accepted requests in the raw metadata",base),
p("C27","A segmentation counts exactly the stored events that the request is about",
 "For any event segmentation request - regular and custom events with filters, filters over all events, breakdowns by event and group properties of every type, any time range and interval, any group, any mix of counts, unique groups, active groups per day, counts per group and aggregates of properties - the answer has, per event, formula and combination of breakdown values, exactly the numbers computed from the stored events of that project: other projects, events out of range, events lacking a property or group do not count, and the number of partitions, earlier flushes, compactions, crashes and restarts make no difference. A question asked while events are ingested counts every event acknowledged before it and none sent after its answer.",
 ["inputs","schedules","histories","crash_points","fault_sequences"],"random requests over random histories of several projects, asked while events are ingested and flushed and after crashes and restarts, on disks that fail",
 "The numbers depend on all events and the whole request at once; the tests of the queries print tables and compare nothing.",
 ["src/query/src/event_segmentation.rs","src/query/src/expr.rs","src/query/src/lib.rs","src/query/src/physical_plan/segmented_aggregate.rs","src/query/src/physical_plan/pivot.rs","src/query/src/physical_plan/expressions/aggregate/mod.rs","src/platform/src/event_segmentation.rs"],
 [("plan","src/query/src/event_segmentation.rs LogicalPlanBuilder::build"),("filters","src/query/src/expr.rs"),("aggregation","src/query/src/physical_plan/segmented_aggregate.rs, src/query/src/physical_plan/expressions/aggregate"),("table","src/query/src/physical_plan/unpivot.rs, pivot.rs, aggregate_and_sort_columns.rs, limit_groups.rs, merge.rs")],
 "answers over HTTP against numbers computed from the sent events",base+" Segments, formulas and weekly or monthly active groups are not asked for: they are not implemented. Arrow and DataFusion are real."),
p("C28","A funnel counts exactly the tries that users made with the stored events",
 "For any funnel - one to four steps of alternative regular or custom events with filters in exact order, any time window and range, users or a group, unique or repeated conversions, steps or conversion over time by hour to month, excluded events, breakdowns by properties of every type, filters over all events - the answer has, per step, breakdown value and interval, exactly the number of tries that got there, the drop-offs, the conversion and drop-off ratios and the total and average times, computed from the stored events of that project in their order of time, however they are partitioned, batched, flushed or compacted, and after crashes and restarts.",
 ["inputs","schedules","histories","crash_points","fault_sequences"],"random funnels over random histories of several projects, stored over several lives of the server with crashes and failing disks",
 "A try spans many events of one user in rows of several batches and partitions; tests of the repository feed the evaluator one small batch.",
 ["src/query/src/funnel.rs","src/query/src/physical_plan/funnel.rs","src/query/src/physical_plan/planner/funnel.rs","src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs","src/platform/src/funnel.rs"],
 [("plan","src/query/src/funnel.rs build"),("tries","src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs evaluate, push_result"),("totals","src/query/src/physical_plan/funnel.rs FunnelFinalExec")],
 "answers over HTTP against tries found in the sent events",base+" Events of one time that count for the same funnel have no order: such questions are not judged. Segments, holding constants, any order, sessions, touch and filters of conversions are not asked for. Arrow and DataFusion are real."),
p("C29","An event search returns exactly the stored events that match, as they are",
 "Searching events returns the latest events of the project (at most 100) within the time range that match one of the asked events and all filters - by every operation on strings, numbers, booleans and times, on event and group properties, also filters of custom events, values that are null, unknown or contain wildcards - each once, newest first, with the requested columns holding the values that were sent or null; getting an event by its id returns all its properties, or not found. No event of another project is ever shown. Searches asked during ingestion contain every matching event acknowledged before and nothing that was never sent.",
 ["inputs","schedules","histories","crash_points","fault_sequences"],"random searches over random histories of several projects, asked while events are ingested and flushed and after crashes and restarts, on disks that fail",
 "Each answer depends on every filter, the dictionaries, the schema of that moment and all events; the repository has no test that compares an answer.",
 ["src/query/src/event_records.rs","src/query/src/expr.rs","src/query/src/lib.rs","src/platform/src/event_records.rs","src/platform/src/lib.rs","src/storage/src/db.rs"],
 [("search","src/query/src/event_records.rs search"),("record","src/query/src/event_records.rs get_by_id"),("filters","src/query/src/expr.rs event_filters_expression, named_property_expression"),("conversion","src/platform/src/event_records.rs")],
 "answers over HTTP against the events that were sent",base+" Arrow and DataFusion are real."),
p("C30","Group records show exactly the identified users and groups, as they are now",
 "A search of group records answers with exactly the users or groups of the project that were identified, each once, whose current properties match the time range and all filters, with the requested columns (or all properties of the project) holding current values or null; getting a record by its id returns all its current properties, or not found when it was never identified. No record or value of another project is shown. Questions asked while users and groups are being identified see for every record a state that it had meanwhile. All this holds through flushes, crashes, restarts and failing disks.",
 ["inputs","schedules","histories","crash_points","fault_sequences"],"random searches over random histories of identifications by several clients in several projects, during and after, through crashes and on disks that fail",
 "Each answer depends on the filters, the dictionaries, the newest of several versions of each record and the schema of that moment; the repository has no test of group records.",
 ["src/query/src/group_records.rs","src/query/src/expr.rs","src/platform/src/group_records.rs","src/platform/src/http/group_records.rs","src/ingester/src/executor.rs","src/ingester/src/destinations/local/identify.rs","src/metadata/src/groups.rs"],
 [("search","src/query/src/group_records.rs search"),("record","src/query/src/group_records.rs get_by_id"),("ingest","src/ingester/src/destinations/local/identify.rs"),("conversion","src/platform/src/group_records.rs")],
 "answers over HTTP against the history of identify requests; per property the values that its requests allow at that moment",base+" Arrow and DataFusion are real."),
p("C31","The values of a property are exactly those that stored events have",
 "A list of values of an event, user or group property has exactly the distinct values of it among the stored events of the project (of the requested event or custom event, when there is one) that pass the filter on the value, each once, in ascending order with a missing value last; no value of another project is shown. A list asked while events are being ingested has every value of an event accepted before and none that was not sent. All this holds through flushes, crashes, restarts and failing disks.",
 ["inputs","schedules","histories","crash_points","fault_sequences"],"random lists over random events of several projects, during and after ingestion, through crashes and on disks that fail",
 "Each answer depends on the parts, the memtable, the dictionaries and the schema of that moment; the one existing test is not built and lists one property once.",
 ["src/query/src/properties.rs","src/query/src/expr.rs","src/query/src/physical_plan/dictionary_decode.rs","src/platform/src/properties.rs","src/platform/src/http/properties.rs","src/storage/src/db.rs"],
 [("values","src/query/src/properties.rs values"),("filter","src/query/src/expr.rs property_expression"),("event","src/query/src/expr.rs event_expression"),("conversion","src/platform/src/properties.rs validate_request, ListPropertyValuesRequest")],
 "answers over HTTP against the events that were sent",base+" Arrow and DataFusion are real."),
]
json.dump(L,open(os.path.join(os.path.dirname(__file__),"app.json"),"w"),indent=1)
