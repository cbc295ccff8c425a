#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as code so that it is reviewable).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","User-key namespaces behave as one map, for any operations and clients",
 "In a user-key namespace, whatever sequence of SET and DEL commands any number of clients execute, GET, MGET, EXISTS, LENGTH, KEYTIME and CHECK always report exactly the last acknowledged value of each binary key (size, timestamp and integrity included) and nil / 0 for keys never set or deleted. SET answers the key when the value changed and nil, with no effect, when the same bytes are already stored; DEL answers OK only for an existing key. This is independent of key and payload bytes and sizes, of hash-bucket or checksum collisions, and of how many data files the history spans.",
 ["inputs","histories"],"all finite sequences of SET/DEL/GET/MGET/EXISTS/LENGTH/KEYTIME/CHECK over binary keys of 1..255 bytes and payloads up to 8 MB, interleaved from several clients, across file jumps",
 "the test-suite sends a few dozen fixed commands with short printable keys; it never crosses many files with overwrites and deletes, never collides buckets or checksums, and never compares against a model",
 ["zdbd/commands_set.c","zdbd/commands_get.c","libzdb/index_set.c","libzdb/index_get.c","libzdb/index.c","libzdb/data.c"],
 [("memory index lookup by bucket, namespace, length and bytes","libzdb/index.c:index_entry_get"),("update / insert handlers","libzdb/index_set.c"),("same-data suppression","zdbd/commands_set.c")],["client replies"])

p("C02","Restart or RELOAD changes nothing observable",
 "After a clean stop and start on the same directories, or after RELOAD of a namespace, every acknowledged key, value, timestamp, version history, scan order, namespace setting and entry/size statistic is the same as before, and new writes continue correctly from there. Locks and freezes are runtime states and end with it. This holds for any history of operations, files and namespaces, in user, sequential and mixed mode.",
 ["histories","configurations"],"all operation histories (sets, overwrites, deletes, jumps, NSNEW/NSSET/NSDEL/FLUSH), with any number of restarts and reloads between them",
 "the suite restarts only to see that the process starts; the content after a reload is checked for one key",
 ["libzdb/index_loader.c","libzdb/namespace.c","libzdb/libzdb.c","libzdb/data.c"],
 [("index replay in file order","libzdb/index_loader.c"),("descriptor load","libzdb/namespace.c")],["client replies before and after the restart"])

p("C03","A crash at any instant loses or corrupts no acknowledged data",
 "If the process is killed between any two storage calls, or in the middle of an append, the server starts again on the same directories and every key holds either its last acknowledged value or the value of the single operation in flight, and every namespace and setting that was acknowledged is still there. Nothing else appears, disappears or is corrupted, and the restarted database accepts and keeps further writes. (A namespace whose deletion or FLUSH was interrupted may be left partly emptied; repeating the command finishes it.)",
 ["crash_points","histories"],"every write / create / rename / unlink / mkdir issued while executing sets, overwrites, deletes, file jumps, namespace creation, deletion, settings changes and FLUSH, in user and sequential mode, including crashes in the middle of a write",
 "no test kills the server while it is writing; a crash point is a schedule the suite cannot express",
 ["libzdb/index_set.c","libzdb/index.c","libzdb/index_loader.c","libzdb/data.c","libzdb/namespace.c"],
 [("data is appended before the index","zdbd/commands_set.c"),("index replay tolerates an incomplete tail","libzdb/index_loader.c")],["on-disk files after the kill, replies after the restart"],
 hook="none: storage calls are intercepted at link time")

p("C04","A failing disk write is reported and does no collateral damage",
 "When a storage call fails or is cut short (no space, I/O error, short write), the affected command answers an error rather than success, the server keeps serving, and every other key keeps its value, both immediately and after a restart. Once the fault is gone new writes succeed, read back correctly and survive a restart.",
 ["fault_sequences","histories"],"every single fault (ENOSPC, EIO, short write) at every write issued by sets, overwrites, deletes and jumps, then recovery",
 "the suite never injects an I/O fault",
 ["libzdb/data.c","libzdb/index.c","libzdb/index_set.c"],
 [("write wrappers and their callers' error paths","libzdb/data.c:data_write, libzdb/index.c:index_write")],["client replies, error counters in NSINFO, replies after restart"])

p("C05","Sequential namespaces: fresh unique increasing ids, and only issued ids work",
 "In a sequential namespace each SET with an empty key returns a new 8-byte little-endian id, greater than every id issued before and never issued again, across file jumps, deletes, updates and restarts. A SET on an issued, live id updates exactly that object, and GET, EXISTS, DEL, LENGTH, KEYTIME, CHECK and HISTORY on any other byte string (wrong length, never issued, deleted, internal) report not found or an error and change nothing.",
 ["histories","inputs"],"all histories of sequential inserts, updates, deletes, jumps (also on empty files), reloads and restarts; all 8-byte keys, including ones far outside the issued range",
 "the seq suite inserts a handful of keys in one file; no test looks at id allocation over files or restarts or at forged keys",
 ["libzdb/index_seq.c","libzdb/index_set.c","libzdb/index_get.c","libzdb/index_loader.c","zdbd/commands_set.c"],
 [("id to file map","libzdb/index_seq.c"),("fixed-size slot addressing","libzdb/index_seq.c:index_seq_offset")],["client replies"])

p("C06","SCAN and RSCAN enumerate every live key exactly once, in order",
 "Walking a namespace with SCAN (or RSCAN, backwards) from the beginning, following each returned cursor, yields every live key exactly once with its size and time, in order of last write (order of insertion in sequential mode), never a deleted or overwritten version, and ends with 'No more data'; SCANX is identical. A cursor given by KEYCUR or by a scan stays usable for life: starting from it yields exactly the live entries that were written after (RSCAN: before) that point, even when its key has since been updated or deleted. A cursor that designates no stored entry, or whose bytes do not match the entry, is refused. A scan that cannot read or open an index file answers an error; it never reports the end instead, nor skips entries.",
 ["histories","inputs"],"all histories of sets, overwrites and deletes over several index files (also empty ones), restarts, and all cursor byte strings",
 "the suite scans one small file once; it cannot cover cursors across later updates, empty files, or forged cursors",
 ["libzdb/index_scan.c","zdbd/commands_scan.c","libzdb/index.c"],
 [("previous-entry chain and forward walk","libzdb/index_scan.c"),("cursor serialisation","libzdb/index.c")],["client replies"])

p("C07","HISTORY returns every past version of the requested key and nothing else",
 "Following HISTORY from a key's current version through the returned identifiers yields exactly the values and timestamps that were stored under that key since it was last created, newest first, over any number of overwrites, files and restarts. An identifier that does not designate a version of the given key is refused, and an unknown or deleted key answers not found.",
 ["histories","inputs"],"all histories of overwrites, deletes and re-creations of several keys over several files, user and sequential mode; all identifier byte strings",
 "the suite follows one chain of a few versions in one file",
 ["zdbd/commands_history.c","libzdb/index_set.c","libzdb/index.c"],
 [("parent links of index entries","libzdb/index_set.c")],["client replies"])

p("C08","Namespaces are isolated, and created, deleted, flushed and reloaded as wholes",
 "Operations in one namespace never change or reveal keys, history, scans, statistics or settings of another, whatever the key names. NSNEW yields an empty namespace; NSDEL removes exactly the named one with its files, and never the default one or one outside the database directories; FLUSH empties exactly the selected private, password protected namespace, permanently, and keeps its settings and mode. Clients attached to a deleted namespace get errors until they leave, and never reach another namespace's data, even when the name is created again.",
 ["histories","inputs"],"all interleavings of namespace administration and data commands by several clients over several namespaces; all namespace names",
 "the suite uses namespaces one at a time, does not compare the others, and never checks that FLUSH removes anything",
 ["libzdb/namespace.c","zdbd/commands_namespace.c","libzdb/filesystem.c","libzdb/index_branch.c","libzdb/index.c"],
 [("namespace tag on shared memory index entries","libzdb/index.c:index_entry_get"),("detaching clients of a removed namespace","zdbd/redis.c")],["client replies, directory contents"])

p("C09","No privileged or protected operation without the right credentials",
 "When an admin password is set, only a connection that proved it with AUTH (plain, or SECURE with a fresh one-time challenge) can run admin commands; a private namespace is only reachable, and a public one with a password only writable, for a connection that gave that namespace's password in SELECT, admin or not (access is decided at SELECT time); --protect makes the default namespace read-only without its password. Failed attempts never grant anything, a challenge is valid once only and only on its connection, and privileges never leak to other connections, namespaces or later connections.",
 ["histories","inputs","configurations"],"all sequences of AUTH, SELECT, NSSET and data commands by several connections; all password byte strings and truncations of them; all startup flags",
 "the auth suite checks some single-step successes and failures; it cannot enumerate command x privilege x namespace-state combinations, nor replay across connections",
 ["zdbd/commands_auth.c","zdbd/auth.c","zdbd/commands.c","zdbd/commands_namespace.c","zdbd/redis.c"],
 [("admin flag and writable flag of a client","zdbd/redis.h"),("namespace password check in SELECT","zdbd/commands_namespace.c")],["client replies, side effects"])

p("C10","Lock, freeze, WORM, size limit and mode rules are enforced on every command",
 "While a namespace is locked no command changes its data; while frozen no dataset command reads or changes it (metadata and admin commands still work); in WORM mode no key is ever overwritten or deleted; with a maximum size the sum of live payload sizes never exceeds it, while any write that fits is accepted; its mode can only change while it never held an object. Refused commands have no effect, and lifting the restriction restores normal service with the data unchanged.",
 ["histories","inputs"],"all data-changing and data-reading commands crossed with all combinations of these settings, changed at any point of any history, across restarts where the setting is persistent",
 "the suite tries one or two commands per setting and checks only the reply",
 ["zdbd/commands_set.c","zdbd/commands_get.c","zdbd/commands_dataset.c","zdbd/commands_scan.c","zdbd/commands_history.c","zdbd/commands_namespace.c","libzdb/namespace.c"],
 [("per-command guards","zdbd/commands*.c")],["client replies, namespace contents"])

p("C11","Every request gets exactly its own reply, in order, however bytes are cut",
 "For any well-formed request stream, each connection receives exactly one complete RESP reply per request, in request order and with the content the same commands give one at a time, whatever the fragmentation of the stream into packets, the amount of pipelining, the speed at which the client reads, and the activity of other connections. Malformed or over-limit requests get an error and/or a disconnection of that client only, without effect on any data.",
 ["schedules","inputs"],"all ways to cut a request stream into segments and to delay reading, all pipelines, many concurrent connections, payloads and keys with any bytes",
 "the pipeline test sends a few fixed bursts; buffer boundary coincidences and slow readers are schedules a test samples at most once",
 ["zdbd/redis.c","zdbd/socket_epoll.c","zdbd/commands.c"],
 [("incremental request parser","zdbd/redis.c"),("pending reply queue","zdbd/redis.c")],["bytes received by each client"])

p("C12","No byte sequence from a client makes the server misuse memory, crash or hang",
 "Whatever bytes clients send, at any privilege level, the server performs no out-of-bounds or use-after-free access, no undefined behaviour and no crash, and keeps answering other clients. The same holds when connections vanish at any moment.",
 ["inputs","schedules"],"all byte strings on any number of connections: malformed RESP, extreme lengths and counts, every command with every argument shape, abrupt disconnects",
 "the tests send almost only valid requests and run without sanitizers",
 ["zdbd/redis.c","zdbd/commands.c","zdbd/commands_set.c","zdbd/commands_scan.c","zdbd/commands_history.c","zdbd/commands_namespace.c","zdbd/commands_system.c","libzdb/index.c","libzdb/index_scan.c"],
 [("request size limits and argument validation","zdbd/redis.c, zdbd/commands.c")],["sanitizer reports, liveness of a control connection"])

p("C13","Data files are append-only, index changes stay within their rules",
 "Bytes once written to a data file are never modified, moved or truncated by any command except deletion or FLUSH of the whole namespace, and files other than the active one never change. Index entries, once written, change only in their deletion mark (user mode) or in the slot of the updated key (sequential mode), and INDEX DIRTY lists exactly the index files in which an existing entry was changed since the last reset or load (appends do not count; index headers are refreshed at load). The files always parse exactly into whole entries in the documented layout, and replaying the data files alone gives the live dataset.",
 ["histories"],"all histories of commands in both modes over several files; the files are compared after every step",
 "no test looks at the files",
 ["libzdb/data.c","libzdb/index.c","libzdb/index_set.c","libzdb/index_loader.c"],
 [("O_APPEND data writer","libzdb/data.c"),("in-place index flag / overwrite","libzdb/index.c, libzdb/index_set.c"),("dirty map","libzdb/index.c")],["files on disk, INDEX DIRTY"])

p("C14","Corrupted payloads are detected, intact ones never accused",
 "CHECK answers 1 exactly when the stored payload of the key still matches the checksum recorded when it was written, for any payload; any change of up to a few bits or one burst in it yields 0 (never 1), an unreadable entry is not reported as valid, and the offline integrity checker and the checksum shown by DATA RAW agree. The checksum is the CRC-32C polynomial remainder of the payload (zero initial value, no final inversion), whatever its length and alignment.",
 ["inputs","fault_sequences"],"all payload contents and lengths; all single-bit, burst and truncation damages of a data file",
 "the suite runs CHECK on intact data only",
 ["libzdb/data.c","libzdb/crc32.c","zdbd/commands_get.c","tools/integrity-check/integrity-check.c"],
 [("payload checksum","libzdb/crc32.c"),("check on read","libzdb/data.c")],["client replies after damaging files, tool exit code"])

p("C15","Offline tools preserve the dataset",
 "Rebuilding the index from the data files, or compacting a namespace, gives a database on which the server starts and returns exactly the live keys, values and timestamps of the source, in user and in sequential mode; with --time the rebuilt index shows the dataset as it was at that time; the source files are not modified. Editing a namespace descriptor gives it exactly the given settings (documented defaults for those not given), and dumps show what the server stored.",
 ["histories"],"all histories of sets, overwrites, deletes and jumps, over several files, in both modes",
 "the tools are not run by any test",
 ["tools/index-rebuild/index-rebuild.c","tools/quick-compaction/quick-compact.c","tools/namespace-editor/namespace-editor.c","tools/namespace-dump/namespace-dump.c","tools/index-dump/index-dump.c","libzdb/data.c","libzdb/index_set.c"],
 [("replay of data entries","tools/index-rebuild/index-rebuild.c"),("copy of live entries","tools/quick-compaction/quick-compact.c")],["server replies on the produced directories"])

p("C16","WAIT wakes exactly the right waiters, exactly once",
 "A client in WAIT for a command (or *) receives exactly one reply: the name of the first matching command that another client executes in the same namespace after the wait started, or a timeout error no earlier than the requested delay when none came; nothing wakes it for other commands, other namespaces or its own. After the reply the connection is usable normally, and a waiter that disconnects affects nobody.",
 ["schedules","histories"],"all interleavings of waits, triggers, timeouts, disconnects, SELECTs and namespace deletions among many clients",
 "the suite checks argument errors and one or two waits",
 ["zdbd/redis.c","zdbd/commands.c"],
 [("watching flag and post-execution trigger","zdbd/redis.c")],["bytes received by waiting clients"])

p("C17","Mirrors receive an exact, replayable stream of what was executed",
 "A connection in MIRROR mode receives every state-changing command executed by other clients after it attached, exactly once, in execution order, with its namespace and timestamp, byte for byte; replaying that stream through a MASTER connection on a fresh server yields the same dataset, timestamps included. Walking DATA RAW from the offsets reported by NSINFO likewise returns every stored object exactly as written.",
 ["histories","schedules"],"all histories of commands by many clients over several namespaces while mirrors attach and detach, with binary keys and payloads",
 "no test uses MIRROR, MASTER or DATA RAW for replication",
 ["zdbd/redis.c","zdbd/commands_replicate.c","zdbd/commands_dataset.c","libzdb/data.c"],
 [("command forwarding after execution","zdbd/redis.c"),("MASTER prefix decoding","zdbd/redis.c")],["bytes received by mirrors, contents of the replica"])

p("C18","Hooks fire for every event with the right arguments; missing data is refetched",
 "With a hook configured, each documented event (ready, close, jump-data, jump-index, namespace created / updated / deleted / reloaded / closing, missing-data) runs the hook exactly once per occurrence with the documented arguments, including the exact list of dirty index files, and HOOKS reports it with its status. A read that needs an absent data file calls missing-data, waits, and returns the right value when the hook restored the file; without it the read fails cleanly and everything not needing that file keeps working.",
 ["histories","fault_sequences"],"all histories of jumps and namespace operations; removal and restoration of any non-active data file at any point",
 "the suite runs with /bin/true as hook and never looks at its arguments, and never removes a data file",
 ["libzdb/hook.c","libzdb/data.c","libzdb/index.c","zdbd/commands_system.c","zdbd/commands_namespace.c"],
 [("hook slots and execution","libzdb/hook.c"),("missing file callback","libzdb/data.c")],["arguments recorded by the hook program, client replies"])

p("C19","The embedded library API gives the same map semantics",
 "Through the embedding API (set, get, exists, check, del), a program sees the same semantics as over the network: the last value set for each key, not-found after delete, up-to-date only when the very same bytes are stored, and the same contents after closing and reopening or when the directories are served by the daemon. Every reply is well-typed and can be freed, with no leak and no memory error.",
 ["inputs","histories","configurations"],"all sequences of API calls with all keys and payloads, for every engine mode setting",
 "no test calls the API; only an example program does",
 ["libzdb/api.c","libzdb/api.h","libzdb/bootstrap.c","libzdb/libzdb.c"],
 [("per-mode set handlers","libzdb/api.c")],["API return values in a C harness"])

p("C20","Statistics conserve: entries, sizes and counters match reality",
 "At any quiet point NSINFO and DBSIZE report exactly the number of live keys and the sum of their payload sizes, and NSLIST exactly the existing namespaces; next-id, data file and offset fields designate the real end of the data, and INFO's command, client and traffic counters match what was sent and received. This is independent of overwrites, deletes, refused commands and restarts. The space said to be available is what remains under the limits, never a wrapped-around number.",
 ["histories"],"all histories of commands in all modes and namespaces, compared at every quiet point with a model",
 "the suite reads a few fields once without recomputing them",
 ["zdbd/commands_namespace.c","zdbd/commands_dataset.c","zdbd/commands_system.c","libzdb/index_set.c","libzdb/index.c","libzdb/index_loader.c"],
 [("stats updated with each insert, update, delete","libzdb/index_set.c")],["NSINFO, DBSIZE, INFO replies"])

p("C21","At most one server owns a database directory",
 "While a server is running on a data or index directory, a second server started on either of them, in any combination and at any moment, refuses to start and modifies nothing there. When the first one ends, in any way including a kill, a new one can start at once.",
 ["schedules","configurations"],"all combinations of shared data / index directories, path spellings, start races, and ways to end the first server (including with hook children still alive)",
 "no test starts two servers",
 ["libzdb/libzdb.c","libzdb/filesystem.c","libzdb/bootstrap.c"],
 [("advisory lock file in both roots","libzdb/bootstrap.c")],["exit status of the second server, files"])

p("C22","No memory, descriptor or process leaks over any workload",
 "After any sequence of commands, connections, disconnections and errors, the resources held by the server return to those justified by its live state: descriptors for its listening sockets, connected clients and active files, no zombie children, and no memory that is unreachable or that keeps growing under a repeated workload. A debug STOP after any history leaves no leaked allocation.",
 ["histories","schedules"],"all commands including failing ones, all disconnect points (also with pending replies or in WAIT / MIRROR), many namespaces created and deleted",
 "the suite runs without leak detection, and a leak needs repetition to be visible",
 ["zdbd/redis.c","zdbd/commands_set.c","zdbd/commands_namespace.c","libzdb/namespace.c","libzdb/index_branch.c","libzdb/hook.c"],
 [("explicit frees on every path","zdbd/*.c, libzdb/*.c")],["LeakSanitizer at STOP, /proc/self/fd of the server"])

p("C23","A read-only or partly missing store still serves what exists",
 "On a read-only filesystem a server starts on existing data and answers every read as before, while every write is refused with an error and changes nothing, neither on disk nor in what is served.",
 ["configurations","histories"],"all datasets in all modes, all read and write commands, index and/or data read-only",
 "no test runs on read-only storage",
 ["libzdb/index_loader.c","libzdb/data.c","libzdb/index.c","libzdb/index_set.c"],
 [("EROFS fall-backs","libzdb/data.c, libzdb/index_loader.c")],["client replies, files"])

p("C24","With --sync, nothing is acknowledged before it is on stable storage",
 "When the server runs with --sync, every byte written to data and index files for a command has been flushed to the device before the reply to that command is sent; cutting all files back to their last flushed content at any moment therefore loses no acknowledged write. With --synctime, unflushed writes never accumulate beyond the configured delay plus one command.",
 ["crash_points","histories"],"every prefix of the storage-call trace of any history of sets, updates, deletes and jumps in both modes",
 "the suite runs --sync but cannot see whether data was flushed",
 ["libzdb/data.c","libzdb/index.c","libzdb/index_set.c"],
 [("sync check after each write","libzdb/data.c:data_sync_check, libzdb/index.c:index_sync_check")],["intercepted write / fsync / send calls in order"],
 hook="none: storage calls are intercepted at link time")

p("C25","Command-line options take effect as documented, for that run only",
 "--datasize: no value is appended to a data file when that would take it over the size, and a file is not left while the value fits; sizes outside 512 KiB..4 GiB or unreadable are refused. --maxsize limits the default namespace only. --protect keeps the default namespace read-only for clients which did not SELECT it with the admin password, and is refused without --admin. --rotate moves a namespace whose index was appended to since its last rotation to the next data and index file once more than that many seconds passed, and no other. --dump lists the live keys and changes nothing. --version, --help and refused options touch nothing. --socket, --listen, --port and --dualnet open exactly the sockets they name. --background leaves with success once the store is served, and lets go of the terminal. Whatever options a run had, a later run without them shows no trace of them: the content is the same, limits and protection are gone, the admin password is in no file.",
 ["configurations","histories"],"all sequences of runs of one store with random options, each with random commands, clock advances and restarts",
 "the suite runs one fixed set of options per start and never restarts a store with other ones",
 ["zdbd/zdbd.c","zdbd/redis.c","libzdb/namespace.c","zdbd/commands_namespace.c","zdbd/commands_set.c"],
 [("option parsing","zdbd/zdbd.c:main"),("settings of the run applied to the default namespace","zdbd/zdbd.c:proceed"),("what is written in the descriptor","libzdb/namespace.c:namespace_commit"),("rotation when idle","zdbd/redis.c:redis_files_rotate"),("listeners and background","zdbd/redis.c:redis_listen")],["client replies, files, exit status, sockets of the process"])

p("C26","db-sync and db-replicate copy exactly, or say that they did not",
 "When db-sync ends with success, every key which the default namespace of the source held during the whole run has the source's value on the target, a key changed meanwhile has a value the source gave it, and other keys of the target are untouched. It ends with a failure when the copy is incomplete: a refused SET, an unreadable value, a listing which stops early, a server which dies. db-replicate does the same copy, from an empty source too, then keeps going: each later SET of a key (in sequential mode: each new id) reaches the target, until the target refuses, which ends it with a failure. Neither ever writes a value the source did not have, changes the source, or misuses memory.",
 ["inputs","schedules","faults"],"any content in both modes, changed by other clients during the copy, with refusing, full, locked, frozen or dying servers and read errors",
 "the suite does not run the utilities",
 ["utilities/db-sync/db-sync.c","utilities/db-replicate/db-replicate.c"],
 [("pipelined GET then SET","utilities/db-sync/db-sync.c:fetchsync"),("listing by SCAN","utilities/db-sync/db-sync.c:synchronize"),("follow by WAIT and SCAN","utilities/db-replicate/db-replicate.c:synchronize")],["exit status, output, content of both servers"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
