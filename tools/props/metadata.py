import json,os
ST="src/metadata/src/"
def p(id,title,st,over,text,why,files,mech,state=None,obs=None,note=None,harness="h_metadata"):
    a={"files":[ST+f for f in files],"mechanism":[{"name":n,"where":ST+w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if obs: a["observe_at"]=obs
    return {"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a,"_check":{"harness":harness,"note":note}}
base="Seeded search, not exhaustive. Real metadata (and storage) code over an in-memory transaction store with RocksDB's pessimistic locking. Oracle: the recorded history must be linearizable with respect to a small reference model of the entities."
L=[
p("C10","Names, e-mails, tokens and ids stay unique under concurrent requests",
 "When accounts, organizations, projects, teams, events, custom events and dashboards are created, renamed, looked up, listed and deleted concurrently, the outcome is one that some order of the operations explains: no two live objects of a scope share a unique name (or e-mail, token, display name), no id is ever given twice, a lookup by name finds exactly the object that bears the name, a deleted or changed name is free again, a rejected operation changes nothing, and custom events never form cycles.",
 ["schedules","inputs","histories"],"every interleaving of up to four clients, lock waits and lock timeouts included, and every choice of (colliding) names",
 "The unit tests run one thread; every check-then-insert race needs two transactions interleaved between the check and the commit.",
 ["index.rs","accounts.rs","organizations.rs","projects.rs","teams.rs","events.rs","custom_events.rs"],[("uniqueness index","index.rs check_insert_constraints"),("rename","index.rs check_update_constraints"),("id sequences","index.rs next_seq")],
 [("name index","maps a name to the id of the live object bearing it")],"API results of create/update/delete/get/list",base),
p("C11","A metadata change is durable and all or nothing",
 "A metadata operation that reported success is visible after any crash and restart; one that reported an error has changed nothing; one interrupted by a crash either took effect completely (record, name index, memberships, dictionary entry) or not at all. This holds when the store's reads or commits fail, and the store accepts the same operations afterwards.",
 ["crash_points","fault_sequences","schedules","histories"],"every crash point before and after a commit or at any step, every failing read or commit, up to four process lives",
 "No test makes a commit fail or restarts the store in the middle of an operation.",
 ["index.rs","accounts.rs","organizations.rs","events.rs","custom_events.rs","dictionaries.rs","groups.rs","sessions.rs"],[("transactions","every module: db.transaction() ... commit()")],
 None,"API results before and after restart",base+" Failed operations must have no effect; interrupted ones are optional until the crash."),
p("C12","Concurrent changes of one record are never lost",
 "Memberships and roles added to or removed from an organization, properties attached to or detached from an event, project event counters and field updates made concurrently are all reflected in the record: every successful change stays until another one replaces it, fields a request does not mention keep their values, and an organization's member list and its members' accounts always agree.",
 ["schedules","histories"],"every interleaving of concurrent read-modify-write operations on the same records",
 "A lost update needs two transactions that both read before either commits; tests are sequential.",
 ["organizations.rs","accounts.rs","events.rs","projects.rs"],[("membership","organizations.rs add_member"),("attach/detach","events.rs attach_property"),("counter","projects.rs increment_events_counter")],
 None,"get and list results",base),
p("C13","Dictionary keys and record numbers identify exactly one value",
 "In every dictionary a value always has the same key, two different values never share a key, and the key resolves to the value it was given for, however many clients ask for the same new value at the same time and across restarts. Record sequence numbers of events and groups are never handed out twice.",
 ["schedules","crash_points","histories"],"every interleaving of concurrent lookups and creations over equal and different values, with failing commits and crashes",
 "The tests create a few entries one after another.",
 ["dictionaries.rs","index.rs","events.rs","groups.rs"],[("get or create","dictionaries.rs _get_key_or_create"),("sequences","index.rs next_seq")],
 None,"dictionary keys, record numbers",base),
p("C14","A user or group keeps one identity",
 "An anonymous id, a user id or a group key always resolves to the same numeric identity within its project and group; different keys get different identities, except that the first user id that is merged with an anonymous id takes over that identity. Property values of an identity are the latest stored per property. A project has at most five group names, each with its own stable number.",
 ["schedules","inputs","histories"],"every interleaving of anonymous resolution, merging, creation and updates, in several projects and groups",
 "Tests resolve a handful of keys in sequence; the shared id sequence breaks only when merges mix with new ids.",
 ["groups.rs"],[("anonymous ids","groups.rs get_or_create_anonymous_id_"),("merge","groups.rs merge_with_anonymous"),("group names","groups.rs get_or_create_group")],
 None,"ids and values returned",base),
p("C15","Every property definition has its column, and caches never lie",
 "A property that was created exists once under its name, has its own column of its type in the tables it belongs to, and keeps both across restarts. Lookups by id and by name and listings agree with the committed definitions at all times, also while properties are created, updated and deleted concurrently, and when a commit or the storage engine fails in between.",
 ["schedules","crash_points","fault_sequences","histories"],"every interleaving of property creation, update, deletion and lookup with cache fills, commit failures, storage write errors and crashes",
 "The caches and the two-store update (metadata plus table schema) go wrong only between two steps of concurrent or failing calls.",
 ["properties.rs"],[("creation","properties.rs create_"),("caches","properties.rs get_by_name_, get_by_id_"),("column assignment","properties.rs column_name")],
 [("id and name cache","least recently used committed definitions")],"property lookups and table schemas",base+" Plain (non-dictionary) properties; one instance per property table as in the server."),
p("C16","A session ends once, and only when it really expired",
 "Recording an event reports a new session exactly when the user has no open session; an open session carries the time of the latest recorded event; the session cleaner ends every session whose last event is too old, ends it once, and never ends a session that was prolonged in the meantime.",
 ["schedules","fault_sequences","histories"],"every interleaving of incoming events with the cleaner, project clean-up, failing commits and crashes",
 "The cleaner runs on a timer next to ingestion; no test runs the two together.",
 ["sessions.rs"],[("touch","sessions.rs set_current_time"),("cleaner","sessions.rs check_for_deletion")],
 None,"session state, new-session flag, ended sessions",base),
p("C17","What was saved is read back unchanged",
 "Dashboards, reports, bookmarks, backup records and server settings are read back, after any number of concurrent updates, deletions and restarts, with every field as last saved and every listing complete and in order; an update changes the fields it mentions and no others; at most one requested backup waits at a time; settings that lack what they need (an hour of the day, a password to encrypt with, the bucket and keys of the chosen provider) are refused and change nothing.",
 ["inputs","schedules","histories"],"every combination of set, changed and unset fields and every interleaving of saves, reads, deletions and restarts",
 "The tests round-trip one hand-written object; fields left out of serialization or of updates go unnoticed.",
 ["dashboards.rs","reports.rs","bookmarks.rs","backups.rs","settings.rs"],[("serialization","reports.rs serialize_report"),("settings","settings.rs serialize"),("backup queue","backups.rs create")],
 None,"get/list results",base),
]
json.dump(L,open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"metadata.json"),"w"),indent=1)
