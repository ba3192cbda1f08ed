#!/usr/bin/env python3
# Writes /verif/properties.jsonl (single source of the property texts).
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=hook)))
QM="src/brokers/queue/manager.rs"; QQ="src/brokers/queue/domain/queue.rs"; QP="src/brokers/queue/domain/persistence.rs"; QD="src/brokers/queue/domain/dlq.rs"; QT="src/brokers/queue/tcp.rs"
SM="src/brokers/stream/manager.rs"; ST="src/brokers/stream/domain/topic.rs"; SG="src/brokers/stream/domain/group.rs"; SP="src/brokers/stream/domain/persistence.rs"; STT="src/brokers/stream/tcp.rs"
PM="src/brokers/pub-sub/manager.rs"; HT="src/transport/http/router.rs"; HP="src/transport/http/payload.rs"; PT="src/brokers/pub-sub/domain/radix_tree.rs"; PR="src/brokers/pub-sub/domain/retained.rs"; PP="src/brokers/pub-sub/domain/persistence.rs"
KM="src/brokers/store/domain/map.rs"; KS="src/brokers/store/manager.rs"
TC="src/transport/tcp/connection.rs"; TD="src/transport/tcp/dispatcher.rs"; TK="src/transport/tcp/protocol/codec.rs"; TCU="src/transport/tcp/protocol/cursor.rs"
prop("Q01","Queue messages are conserved: none lost, duplicated, invented or altered",
 "While the server runs, every successfully pushed message is at every moment in exactly one place - waiting, leased to a consumer, or in the dead letter queue - until it is acked, deleted or purged from the dead letter queue, or its queue is deleted; nothing is lost, duplicated or invented by any interleaving of pushes, consumes, acks, nacks, timeouts and dead-letter operations. Every copy handed out or listed carries exactly the id, payload and priority it was pushed with. The counts and listings the server reports (waiting, leased, dead-lettered) agree with this.",
 ["schedules","histories"],"All interleavings of any number of producers, consumers, the visibility-timeout sweep and dead-letter operations on shared queues.",
 "Unit tests run one client at a time with a handful of messages; the property is about every interleaving of concurrent clients and the background sweep.",
 [QM,QQ,QD],[("single lock per queue around registry and indexes",QM+": QueueShared.inner"),("registry plus two indexes updated together",QQ+": transition_to/remove_from_index"),("DLQ transfer inside the lock",QM+": nack, spawn_timeout_task, move_to_queue")],
 [("registry","all live messages by id",QQ),("waiting_for_dispatch / waiting_for_ack","ready and leased indexes",QQ),("DlqState","dead-lettered messages",QD)],
 ["consume_batch/pop results","peek_dlq","get_snapshot counters","get_messages","TCP consume and peek responses"])
prop("Q02","A queue lease is exclusive and an ack is final",
 "Once a message is delivered to a consumer it is not delivered to anyone again until its visibility timeout has elapsed, it is nacked, or it is replayed from the dead letter queue. Once an ack of a message has succeeded it is never delivered again and never appears in the dead letter queue.",
 ["schedules","histories"],"All interleavings of consumers, acks, nacks, lease expiries and clock advances.",
 "The tests consume with one or a few consumers under a real clock; a double delivery needs a race between consumers or between an ack and the expiry sweep.",
 [QM,QQ],[("atomic move ready -> in-flight",QQ+": pop_single"),("expiry only of due leases",QQ+": process_expired"),("ack removes from registry and index",QQ+": delete_message_and_return")],
 [("waiting_for_ack","leases ordered by expiry",QQ)],["consume_batch/pop results","ack results","peek_dlq"])
prop("Q03","Queue delivery follows priority, then push order",
 "A consume never returns a message while a message of strictly higher priority is available in the queue, and among never-yet-delivered messages of equal priority delivery follows push order. A batch is itself in that order.",
 ["schedules","histories"],"All interleavings of pushes with mixed priorities, batch sizes and consumers.",
 "Tests push a few messages sequentially and pop them back; concurrent pushes, batches, requeues and restored state are not explored.",
 [QM,QQ],[("descending scan over priority buckets",QQ+": pop_single"),("insertion-ordered set per priority",QQ+": waiting_for_dispatch")],(),["order of consume_batch/pop results"])
prop("Q04","Retry limit and dead lettering are exact",
 "A message is delivered at most its queue's retry limit number of times before it is dead-lettered: each delivery counts one attempt, a nack or an expired lease makes it available again while attempts remain and moves it - exactly once, with the right attempt count and reason - to the dead letter queue when they are used up. Replaying a dead-lettered message makes it deliverable again with the attempt count reset; deleting or purging removes exactly the named (or all) dead letters.",
 ["schedules","histories","configurations"],"All retry limits, orders of nacks, timeouts and dead-letter operations, and their interleavings.",
 "Tests drive one message through one path with fixed limits; races between nack and timeout, or replay and purge, are not reached.",
 [QQ,QM,QD],[("attempt counter incremented on delivery",QQ+": pop_single"),("limit check on nack and expiry",QQ+": nack, process_expired"),("replay reset",QD+": to_message")],
 [("attempts","deliveries so far",QQ)],["attempts field of deliveries and of peek_dlq","peek_dlq reason","nack/move/delete/purge results"])
prop("Q05","Long-polling consumers are woken promptly and end on time",
 "A consumer waiting on an empty queue receives a message soon after one becomes available - by push, nack, lease expiry or dead-letter replay - and never stays asleep while messages are available and nobody else takes them. If nothing becomes available it returns empty at its requested wait time, neither early nor unboundedly late.",
 ["schedules","histories"],"All interleavings of waiters going to sleep with pushes, nacks, expiries and replays, for all wait times.",
 "A lost wake-up needs the producer to act in the few instructions between the waiter's check and its registration; tests cannot place it there.",
 [QM],[("register for notification before re-checking",QM+": consume_batch"),("notify on push/nack/expiry/replay",QM+": push, nack, spawn_timeout_task, move_to_queue")],(),["completion time and result of consume with a wait"])
prop("Q06","Queue contents survive a crash up to the flush window",
 "After the server process is killed at any instant and restarted, each queue holds exactly the result of a prefix of the operations applied to it, and that prefix includes everything that completed earlier than the flush interval before the crash. In particular old acked messages do not come back, old pushed messages are not lost or altered, and attempt counts, leases and dead letters are those of that prefix, across any number of crashes.",
 ["crash_points","schedules","histories"],"All crash instants, including in the middle of a flush or a file write, all interleavings of operations and repeated crashes.",
 "Tests restart politely after sleeping past the flush; they never kill mid-flush and never race operations on one message before the flush.",
 [QM,QP,QQ],[("write-behind op log per queue",QP+": run_writer"),("one transaction per flush",QP+": flush_batch"),("recovery of leases and attempts",QP+": load_all_messages"),("atomic DLQ moves",QP+": exec_op")],
 [("queue / dlq_messages tables","durable queue contents",QP)],["messages and dead letters visible after restart"])
prop("Q07","Queue create and delete are idempotent, complete and final",
 "Creating an existing queue changes nothing about it, and its options survive restarts. Deleting a queue removes all of its messages and dead letters for good: nothing of it reappears after re-creation or a restart, other queues are untouched, and operations on a queue that does not exist fail without side effects.",
 ["schedules","histories","crash_points","inputs"],"All interleavings of create, delete and traffic on several queues, with restarts; all queue names.",
 "Tests delete once, sequentially, with simple names; the interleavings of delete with create or traffic and odd names are not covered.",
 [QM,QP],[("writer drained before files are removed",QM+": delete_queue"),("entry-guarded creation",QM+": create_queue"),("config file beside the database",QM+": create_queue/new")],(),["exists, consume, peek_dlq and snapshot after create/delete/restart"])
prop("S01","A stream is one gapless, immutable, totally ordered log",
 "Every successful publish to a stream gets a unique sequence number, the numbers are consecutive, and a publish that starts after another finished gets a larger one. Any read from a position returns exactly the published messages from there on, consecutively, in order and unaltered - no matter whether they are served from memory or disk, and during eviction, flushing and segment roll-over.",
 ["schedules","histories","configurations"],"All interleavings of publishers, readers, eviction, flush and segment roll, for all segment and memory limits.",
 "Tests read after quiet periods with default limits; hot/cold boundaries under concurrent publishes are not reached.",
 [SM,ST,SP],[("sequence assigned under the topic lock",ST+": append"),("evict only persisted data",ST+": evict"),("cold read across segments",SP+": cold_read"),("CRC per record",SP+": read_log_segment")],
 [("next_seq, head_seq, ram_start_seq","log bounds",ST),("persisted_seq","highest flushed sequence",SM)],["publish results","read results","fetch results"])
prop("S02","Within a consumer group each event goes to one consumer at a time, in order",
 "While its acknowledgement is outstanding and its ack wait has not elapsed, a message delivered to one member of a consumer group is not delivered to any other fetch of that group, an acked message is never delivered again without a seek, and first deliveries occur in log order without skipping. Never more than the configured number of messages are outstanding per group, and only the member holding a message can ack it. Different groups do not affect each other.",
 ["schedules","histories","configurations"],"All interleavings of members joining, fetching (hot and cold), acking, leaving and disconnecting, and of timeouts.",
 "Tests use one or two consumers in lock step; overlapping cold fetches and membership changes are not explored.",
 [SM,SG],[("pending map under the topic lock",SG+": issue_delivery"),("cold fetch single-flight",SM+": try_fetch_once/cold_fetch"),("ownership check",SG+": ack")],
 [("pending","outstanding deliveries",SG)],["fetch results","ack results"])
prop("S03","A consumer group eventually gets every event",
 "As long as members keep fetching and acking, every published and still retained event is eventually delivered to the group - also after members crash or disconnect in the middle of a fetch, after acks are missed, after retention or eviction, and after other clients' fetches were cancelled; a group never gets stuck while unacked events remain. A fetch that waits is woken soon after an event becomes deliverable to it and otherwise ends at its requested wait time (it may come back empty earlier only when the group has reached its limit of unacked events, another member is just reading old events from disk for the group, the membership changes, or retention removes what it was waiting for).",
 ["schedules","histories","fault_sequences"],"All interleavings of publishes, fetches (waiting or not, hot or cold), aborts and disconnects at any point of a fetch, timeouts and retention.",
 "A stuck group needs an abort or a race at a particular await point; tests never abort requests there.",
 [SM,SG],[("notify on publish, redelivery, seek, leave",SM+": publish, spawn_background_tasks"),("redelivery timer",SG+": check_redelivery"),("cold fetch flag",SM+": cold_fetch")],
 [("is_fetching_cold","cold read in progress",SG),("redeliver","queue of redeliveries",SG)],["fetch results until drained"])
prop("S04","An unacked event is redelivered up to the delivery limit, then parked",
 "An event whose delivery is not acked within the ack wait, or whose consumer leaves or disconnects, is delivered again; it is never delivered more than the configured maximum number of times, after which it is parked and no longer blocks the group. Parking one event never causes another to be skipped.",
 ["schedules","histories","configurations"],"All delivery limits and interleavings of timeouts, leaves, disconnects, cold and hot redeliveries.",
 "Tests check one event with one limit; redelivery from disk combined with disconnects is not reached.",
 [SG,SM],[("per-event attempt counter",SG+": issue_delivery, release_seq"),("expiry",SG+": check_redelivery")],
 [("delivery_attempts / parked","attempts so far, given-up events",SG)],["number of deliveries per event per group"])
prop("S05","A group's committed position never passes an unprocessed event",
 "The committed position reported for a consumer group only covers events that were acked, parked after their last allowed delivery, removed by retention, or skipped by an explicit seek; it never moves backwards without a seek. Once every event up to some point is acked the committed position reaches that point.",
 ["schedules","histories"],"All ack orders and interleavings of acks, timeouts, leaves, retention and seeks.",
 "Tests ack a few messages in order; out-of-order acks racing with timeouts and redelivery are not sampled.",
 [SG,SM],[("advance over contiguous settled events",SG+": try_advance_floor"),("clamp to retention head",SG+": clamp_head")],
 [("ack_floor","committed position",SG)],["join result, snapshot"])
prop("S06","The stream log survives crashes as an exact prefix",
 "After the server process is killed at any instant - including in the middle of a file write - and restarted, a stream contains exactly the first events of what had been published before, unaltered, at least all those published earlier than the flush window before the crash; publishing then continues with the next number, and everything published afterwards is itself readable and survives later crashes. No sequence number ever denotes two different surviving events.",
 ["crash_points","schedules","histories"],"All crash instants including torn writes, repeated crashes, all interleavings of publishers and all segment sizes.",
 "Tests restart after a clean flush, once; torn tails and second restarts are not exercised.",
 [SP,SM,ST],[("append-only segment files with CRC",SP+": serialize_message/load_segment_file"),("recovery of last segment and bounds",SP+": recover_topic"),("restored counters",ST+": restore")],
 [("segment files","durable log",SP)],["reads and publish results after restart"])
prop("S07","Group progress survives crashes without losing events",
 "After a crash and restart a consumer group resumes at a position it had actually committed: never past an event it had not settled, never past the end of the recovered log, and not earlier than the progress it had committed longer ago than the group-save window. Hence events published after the restart are always delivered and every unsettled event is delivered again.",
 ["crash_points","schedules","histories"],"All crash instants relative to acks, log flushes and group saves, and repeated crashes.",
 "Tests wait long enough for both files to be saved; a crash between the two saves is never tried.",
 [SP,SM,SG],[("atomic replace of the group file",SP+": save_groups_file"),("dirty flag and periodic save",SM+": spawn_background_tasks"),("restore",SG+": restore")],
 [("groups.log","durable committed positions",SP)],["join result and deliveries after restart"])
prop("S08","Retention removes only the oldest events and never makes a hole",
 "Retention removes events only from the oldest end of a stream, only when the configured age or size limit demands it, and never the most recent data being written. What remains is always a contiguous, fully readable range ending at the last published event, for readers and groups alike, including while the clock jumps and across restarts; a stream without limits loses nothing.",
 ["schedules","histories","configurations","fault_sequences"],"All retention limits and segment sizes, all interleavings of retention passes with publishes, reads and fetches, and clock jumps.",
 "Tests run one retention pass in a quiet system; clock jumps and racing reads are not covered.",
 [SP,SM,ST],[("whole-segment deletion, last kept",SP+": apply_retention"),("head propagation",ST+": apply_head"),("group clamp",SG+": clamp_head")],
 [("head_seq","first retained sequence",ST)],["read results, snapshot, directory contents"])
prop("S09","Seek moves a group exactly and fences its previous consumers",
 "After a seek to the beginning the group is next delivered the oldest retained event and then everything after it; after a seek to the end it is delivered only events published after the seek. Consumers that joined before the seek can neither receive nor ack events with their old membership afterwards, so nothing they do changes the new position.",
 ["schedules","histories"],"All interleavings of seeks with in-flight hot, cold and waiting fetches, acks and publishes.",
 "The seek tests are sequential or known flaky; a seek landing inside a cold fetch is not controlled.",
 [SM,SG],[("generation bump and runtime reset",SG+": reset_runtime"),("generation check",SG+": ensure_active_consumer"),("cancel token",SM+": cold_fetch")],
 [("generation","membership epoch",SG)],["fetch and ack results around a seek"])
prop("S10","Stream create and delete are idempotent, complete and final",
 "Creating an existing stream changes nothing about it and its options survive restarts. Deleting a stream removes its events, groups and files for good: neither racing publishes nor a restart nor re-creation brings anything back, a re-created stream starts empty at the first number, and other streams are untouched.",
 ["schedules","histories","crash_points","inputs"],"All interleavings of create, delete and publish, with restarts; all stream names.",
 "Tests delete once with nothing in flight; publishes racing the delete are not explored.",
 [SM,SP],[("deleted marker",SM+": deleted_topics"),("drop through the storage actor",SP+": DropTopic")],(),["exists, read, publish, snapshot, data directory"])
prop("P01","A publish reaches exactly the matching subscribers, in order",
 "A published message is delivered exactly once to every connected client holding at least one matching subscription throughout the publish, and to no client without one; a single-level wildcard matches exactly one level and a multi-level wildcard all remaining ones. Each subscriber receives the messages of one sequential publisher in publish order, with topic and payload unaltered.",
 ["schedules","histories","inputs"],"All topics, patterns and overlapping subscriptions, all interleavings of publishes with subscribes, unsubscribes and disconnects.",
 "Tests check a few patterns with static subscriptions; changing subscriptions under concurrent publishes and random pattern sets are not covered.",
 [PM,PT,TC],[("trie matching",PT+": match_subscribers"),("de-duplication per client",PM+": publish"),("one push channel per connection",TC+": handle_connection")],
 [("tree, clients","subscriptions and senders",PM)],["push frames / channel messages","publish count"])
prop("P02","A new subscriber gets the current retained value",
 "A client that subscribes receives, for every matching topic with a retained message that has not expired, exactly the most recently retained value at that instant, with its topic; a cleared or expired retained message is never delivered. A retained publish is visible to every later subscriber as soon as it has completed.",
 ["schedules","histories","inputs"],"All interleavings of retained publishes, clears, expiries, cleanups and subscribes, for all patterns.",
 "Tests set one value and subscribe later; concurrent retained publishes, expiry edges and cleanup races are not covered.",
 [PM,PT,PR],[("retained value stored in the trie under the write lock",PM+": publish/subscribe"),("expiry",PR+": is_expired")],
 [("retained","last value per topic",PT)],["messages received on subscribe"])
prop("P03","Retained values survive a crash up to the flush window",
 "After a kill at any instant and restart, the retained value of each topic is one it had at some moment not earlier than the retained flush window before the crash: old values that had been replaced or cleared by then do not come back, and values set by then and not expired are not lost. A retained message never outlives its expiry time because of a restart.",
 ["crash_points","schedules","histories","inputs"],"All crash instants, sequences of retained publishes and clears over all topic names, and restarts before or after expiry.",
 "Tests restart once after the flush; expiry while the server is down and crashes mid-flush are not covered.",
 [PM,PP,PR],[("snapshot flush in one transaction",PP+": flush"),("dirty flag",PM+": flush task"),("expiry as wall-clock time",PR+": from_persisted")],
 [("retained table","durable retained values",PP)],["retained values after restart"])
prop("P04","After unsubscribe or disconnect nothing remains of a subscription",
 "Once an unsubscribe or a disconnect has completed, no message published afterwards is delivered for that subscription, no matter how it raced with subscribes and publishes, while the client's other subscriptions and other clients keep working. Nothing of a departed client or of a withdrawn subscription remains in the server.",
 ["schedules","histories"],"All interleavings of subscribe, unsubscribe, disconnect and publish.",
 "A leaked subscriber needs a disconnect between two steps of a subscribe; tests run them in sequence.",
 [PM,PT],[("removal from trie and registry",PM+": unsubscribe/disconnect"),("pruning of empty nodes",PT+": remove_subscriber"),("zombie removal on publish",PM+": publish")],
 [("tree, clients","subscriptions",PM)],["messages received, topic listing"])
prop("K01","The key-value store is linearizable per key",
 "Concurrent set, get and delete calls on a key behave as if executed one at a time in an order consistent with real time, and values are returned unaltered. Operations on one key never affect another, and the background expiry sweep never removes a live entry or a value written after the sweep looked.",
 ["schedules","histories"],"All interleavings of clients and the cleanup sweep on a small set of keys.",
 "Tests use one client; linearizability is a statement about every concurrent history.",
 [KM,KS],[("sharded concurrent map",KM+": inner"),("retain under shard lock",KM+": cleanup")],
 [("inner","key to entry map",KM)],["get results"])
prop("K02","Store entries live exactly as long as their time to live",
 "A stored value is readable until its time to live has passed and never afterwards, a new set replaces both value and lifetime, and a missing or zero time to live means the configured default. Expired entries are eventually removed from memory by the cleanup and never removed early.",
 ["schedules","histories","inputs","configurations"],"All TTL values and interleavings of sets, gets and sweeps around the expiry instants.",
 "Tests sleep a second or two with one TTL; the boundary and overwrite races are not sampled.",
 [KM],[("expiry instant per entry",KM+": set/get"),("periodic sweep",KM+": new")],
 [("expires_at","expiry instant",KM)],["get results and entry count over time"])
prop("T01","Every request gets exactly one response, matched to it, under any network timing",
 "However the byte stream is fragmented, delayed or coalesced, every complete request on a live connection is answered exactly once with its own correlation id and with the result of exactly that request, even when many are pipelined and some of them wait for a long time. Pushed messages never corrupt or displace responses, and a slow or long-waiting request does not block the others.",
 ["schedules","inputs","fault_sequences"],"All fragmentations, delays and interleavings of pipelined requests, pushes and slow readers.",
 "The codec tests decode two frames in memory; fragmentation and pipelining over a connection are not tested.",
 [TC,TD,TK,TCU],[("length-prefixed codec",TK),("one task per request, single writer",TC+": handle_connection/run_socket")],(),["response frames per connection"])
prop("T02","No client can break the server for others",
 "Malformed, oversized, truncated or hostile input, extreme option values, and connections that stall, half-close or reset at any point never crash or wedge the server, never corrupt stored data, and never disturb other connections. A malformed request with an intact frame gets an error response and the connection stays usable; an unparseable or oversized frame closes only that connection.",
 ["inputs","schedules","fault_sequences"],"All byte sequences and option values on any number of bad connections, interleaved with a good one.",
 "No test sends hostile bytes or extreme values; the input space is unbounded.",
 [TC,TK,TCU,QT,STT,QM],[("bounds-checked cursor",TCU),("payload limit",TK+": decode"),("error responses",TD+": dispatch")],(),["process survival, results seen by a well-behaved client"])
prop("T03","A closed connection releases everything it held",
 "When a connection ends for any reason - clean close, reset, protocol error, or in the middle of pipelined or waiting requests - its subscriptions vanish and its stream group memberships end so that its unacknowledged events are promptly offered to the remaining members, and requests still waiting on its behalf take nothing from anyone else.",
 ["schedules","fault_sequences"],"All ways and instants of ending a connection relative to its pending requests.",
 "Tests call the disconnect functions directly; they never end a real connection with an error or with requests in flight.",
 [TC,SM,PM],[("cleanup after the session loop",TC+": handle_connection"),("member removal",SM+": disconnect"),("task abort",TC+": request_set.abort_all")],
 [("client_map","memberships per connection",SM)],["subscriber listing, redelivery to other members"])
prop("D01","Disk errors never corrupt data and service recovers after them",
 "While disk writes fail (disk full, I/O errors, short writes) the server keeps serving consistent answers and never returns wrong, duplicated or reordered data as a consequence. Once the disk works again, operations performed afterwards are durable as usual, and across a later restart only data written during the outage may be missing - never anything durable before it.",
 ["fault_sequences","crash_points","schedules"],"All placements and durations of disk failures over queue, stream and retained-message files, followed by recovery and restart.",
 "No test makes a write fail.",
 [QP,SP,PP,PM,SM],[("transactional batch",QP+": flush_batch"),("write error handling",SP+": handle_append"),("dirty flag",PM+": flush task")],(),["answers during and after the outage, contents after restart"])
prop("D02","A disk that fails while the server starts costs availability, never data",
 "While files cannot be opened, read or written as the server starts (or as it reads back old data), queues, streams and retained messages may be unavailable and requests may fail - but nothing that was durable is lost, replaced by an empty object or a default configuration, truncated, reset or handed out as if it were complete. Once the disk works again, at the latest after a restart, everything that was durable before and everything acknowledged and flushed since is there. The server itself neither crashes nor hangs because of it.",
 ["fault_sequences","crash_points","histories"],"All placements and durations of open, read, write and metadata errors over startup, recovery and cold reads, with further operations and restarts after them.",
 "No test makes a file operation fail, least of all while recovering.",
 [SP,QP,QM,PM,SM],[("log, group and segment recovery",SP+": recover_topic, find_segments, load_topic_config"),("cold reads",SP+": read_log_segment"),("queue restore",QM+": build_queue"),("retained messages at startup",PM+": flush task")],(),["contents of every object after a restart on a working disk"])
prop("N01","Names are isolated: no name affects another or escapes the data directory",
 "Whatever name a client gives a queue, a stream, a group, a topic or a key, operations on it affect only that one object: two different names never share state, in memory or on disk, before or after a restart. No name ever makes the server read, write or delete files outside that object's own place in the data directory.",
 ["inputs","histories"],"All names, including empty, dotted, separator-containing, suffix-like and very long ones, in all operation sequences with restarts.",
 "Tests use plain alphanumeric names.",
 [QM,SM,SP,PT],[("name to path mapping",QM+": build_queue/delete_queue"),("name to directory mapping",SM+": create_topic/delete_topic"),("warm-start name recovery",QM+": new")],(),["objects visible to other names, file-system calls made"])
prop("V01","The dashboard shows what is there and disturbs nothing",
 "What the dashboard shows of each queue, stream, key and topic is a state that object really had at some moment between the request and the answer: messages, events, keys, topics, counts, positions, leases, attempts, limits and expiry times as they are, payloads as they were sent. Paging and searching select faithfully: pages are consecutive parts of the one listing, nothing missing, doubled or foreign, and totals are those of the listing. Looking never changes anything: it takes, leases, expires, wakes or reorders nothing. Any malformed, unknown or extreme request is answered with an error or an empty page, never with a crash, a hang or an internal error.",
 ["schedules","inputs","histories"],"All requests of any number of browsers at any moment of any history of the other clients.",
 "Tests call the listing functions on a handful of quiet objects; no test speaks HTTP or looks while something happens.",
 [HT,HP,QM,SM,PM,KS],[("routes and paging",HT),("payload rendering",HP),("queue listing",QM+": get_messages, get_snapshot"),("stream listing",SM+": get_snapshot, read"),("pub/sub listing",PM+": scan_topics"),("store listing",KS+": scan")],(),["HTTP answers, results of the other clients with and without somebody looking"])
SC="sdk/ts/src/connection.ts"; SCL="sdk/ts/src/client.ts"; SCO="sdk/ts/src/codec.ts"; SQ="sdk/ts/src/brokers/queue.ts"; SS="sdk/ts/src/brokers/stream.ts"; SPS="sdk/ts/src/brokers/pubsub.ts"; SST="sdk/ts/src/brokers/store.ts"; SCC="sdk/ts/src/utils/concurrent.ts"
prop("C01","SDK: every call ends exactly once, in time, with its own answer",
 "Whatever the network, the server and the clock do, every call made on an SDK client settles exactly once and within its time limit: with the server's answer to exactly that request (value, list, flag, count or error text, unaltered), or with an error that says truly that the client is not connected, that the connection was closed, or that the time is up. An answer that arrives in time is never lost, given to another call, or waited for in vain - not after a reconnect, not late in the life of a client, not when frames are fragmented, coalesced, reordered or interleaved with pushes - and every request carries exactly what the caller passed.",
 ["schedules","inputs","fault_sequences"],"All programs of concurrent calls, all fragmentations, delays and orders of answers, all moments of connection loss, wall-clock jumps and disconnects.",
 "The SDK has no test that runs without a server, and none that delays, splits, reorders or loses anything.",
 [SC,SCL,SCO,SST,SQ,SS,SPS],[("request numbering and pending map",SC+": send, dispatch"),("timeouts",SC+": sweep"),("incremental frame parser",SC+": onData"),("value encoding",SCO)],
 [("pending","calls waiting for an answer",SC)],["promises of every call","bytes on the wire"])
prop("C02","SDK: a lost connection comes back by itself, and disconnect is final",
 "After an established connection is lost, for whatever reason, the client dials again at its steady pace until it is connected, is then fully usable, and never has two connections at once. disconnect() at any moment - connected, dialling, waiting to dial, in the middle of calls and consumers - is final: the connection is closed, nothing dials again, nothing keeps running or polling. A connect() that fails leaves nothing behind. Nothing the server sends and nothing the network does ends the process or stops the client from working.",
 ["schedules","fault_sequences"],"All sequences and instants of connection loss, refusal, silence and server restarts relative to calls, consumers and disconnects.",
 "No test loses a connection.",
 [SC,SCL,SQ,SS],[("reconnect loop",SC+": startReconnect"),("teardown",SC+": disconnect, onClose"),("failed connect",SCL+": connect")],(),["dials and connections per client, timers left, calls after the faults"])
prop("C03","SDK: a queue consumer works off every message it is given, and says truly what became of it",
 "Every message a queue subscription is given reaches its callback exactly once per delivery, unaltered, with never more callbacks at once than its concurrency; it is acknowledged soon after its callback succeeded and only then, and refused with the callback's reason soon after it failed and only then. Messages that cannot be decoded are refused and hold up no other message. Errors and lost connections only interrupt a subscription: it goes on by itself. A client has at most one subscription per queue, however calls race; after stop() no callback begins, what was not begun is given back, stop() ends only when running callbacks have ended, and the queue can be subscribed again.",
 ["schedules","inputs","fault_sequences"],"All interleavings of deliveries, callbacks of any duration and outcome, subscribe and stop calls, errors and connection losses, with all concurrencies, batch sizes and payloads.",
 "No SDK test runs offline; callbacks that overlap, fail or outlive their lease next to a dying connection are not sampled.",
 [SQ,SCC,SC],[("consume loop",SQ+": subscribe"),("ack or nack after the callback",SQ+": subscribe"),("concurrency limit",SCC)],(),["callback calls, ack, nack and consume requests on the wire"])
prop("C04","SDK: a stream consumer delivers in order, acknowledges what succeeded, and leaves nothing behind",
 "Every event fetched by a stream subscription reaches its callback, unaltered, with never more callbacks at once than its concurrency and in stream order when that is one; it is acknowledged under the membership it was fetched with, soon after its callback succeeded and only then, so that what failed is delivered again. Events that cannot be decoded hold up nothing else. After a lost connection, an error or an eviction the subscription joins again and goes on by itself without taking a second membership beside a live one. After stop() or disconnect no callback begins, no request is sent for it and no membership is left behind.",
 ["schedules","inputs","fault_sequences"],"All interleavings of fetches, callbacks, stops, seeks, rebalances, errors and connection losses.",
 "No SDK test runs offline; rejoining after a failure and stopping in the middle of a join are not sampled.",
 [SS,SCC,SC],[("join and fetch loop",SS+": run, join, pollOnce"),("ack per event",SS+": pollOnce"),("leave",SS+": stop")],[("consumerId, generation","current membership",SS)],["callback calls, join, fetch, ack and leave requests, members known to the server"])
prop("C05","SDK: subscriptions get every push, survive reconnects and end when told",
 "While subscribed, a handler is called exactly once, at once and in order of arrival for every pushed message whose topic matches its pattern (exact topic, + and #), with the payload unaltered - and no other handler is called. A handler that throws and a payload that cannot be decoded disturb neither other messages nor the process. After a reconnect every subscription the application still has, and no other, is made again. A second subscription to the same topic is refused and changes nothing; after unsubscribe() the handler is not called and the topic can be subscribed again, and a call that fails or ends late affects only its own subscription.",
 ["schedules","inputs","fault_sequences"],"All interleavings of subscribe, unsubscribe, pushes, failures and reconnects, over all patterns and payloads.",
 "No SDK test runs offline; a reconnect in the middle of a subscribe is not sampled.",
 [SPS,SC],[("handler maps",SPS+": subscribe, unsubscribe"),("dispatch and pattern matching",SPS+": dispatch, matchesParts"),("restoring on reconnect",SPS+": constructor")],[("exact, wild","handlers by topic and pattern",SPS)],["handler calls, sub and unsub requests, subscriptions known to the server"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P),"properties")
