#!/usr/bin/env python3
"""writes /verif/properties.jsonl (kept as a script so that the prose stays reviewable)"""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})


LM = "internal/locker/lock_manager/"
LF = [LM + "exclusive_lock.go", LM + "exclusive_locker.go", "internal/locker/api/v1/handlers/locker_handler.go"]
LO = ["POST /v1/locks", "POST /v1/locks/{id}/heartbeat", "DELETE /v1/locks/{id}", "GET /v1/locks"]
ST = [("claim", "the session that holds the lock, if any", LM + "exclusive_lock.go")]

p("L01", "A lock never has two holders",
  "At any time at most one client session holds the lock named by a set of key values: a second request for the same key values is answered only after the first holder released the lock or its timeout ran out. Sessions are never handed out twice and different sets of key values never share a lock.",
  ["schedules", "histories", "inputs"], "every interleaving of lock requests, releases, heartbeats, disconnecting clients and expirations over any sets of key values",
  "The unit tests drive one lock with a handful of hand-ordered calls; the safety depends on the interleaving of waiting, departing, expiring and releasing clients, which they do not enumerate (the lock manager's tests are not even in the reliable set).",
  LF, [("generate / claim hand-over through a channel per lock", LM + "exclusive_lock.go"), ("creation and deletion of lock objects in the associated tree", LM + "exclusive_locker.go")], ST, LO)
p("L02", "Only the holder's session keeps or gives back a lock",
  "A heartbeat or release only succeeds for the session that currently holds that lock; a request with a stale, foreign or unknown session, or for an unknown lock, is answered with an error and changes nothing for the real holder. A release that was accepted frees the lock.",
  ["histories", "inputs", "schedules"], "every combination of live, stale, foreign and made-up session and lock ids, at every point of the lock's life, concurrently",
  "Tests present one bad session id to one lock; they do not cover stale sessions after expiry and re-grant, or concurrent presentations.",
  LF, [("session comparison in the lock's claim loop", LM + "exclusive_lock.go"), ("status code mapping", LF[2])], ST, LO)
p("L03", "A lock is kept while its holder heartbeats and expires after its timeout",
  "A held lock is not taken away before its timeout has passed since the grant or the last accepted heartbeat, whatever other clients do; and a holder which stays silent loses it soon after that timeout, so that waiting clients are served.",
  ["schedules", "histories", "configurations"], "every timing of heartbeats, releases and waiting clients, and every mix of requested and default timeouts",
  "Tests use one lock with one timeout and sleep; they do not relate the moment of expiry to the last heartbeat over arbitrary histories.",
  LF, [("per grant timer, reset by heartbeats", LM + "exclusive_lock.go"), ("default timeout", "internal/config/locker_config.go")], ST, LO)
p("L04", "The lock service always makes progress",
  "Every heartbeat, release and listing is answered, and a client that waits for a lock is answered as soon as the lock is free, whatever the order of requests, departures and stale calls before it. No sequence of requests blocks the service or brings it down.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of requests with clients that go away while they wait, late and stale calls, and expirations",
  "Deadlocks need particular interleavings of several goroutines; the unit tests run short ordered scripts.",
  LF, [("select loops of the lock's goroutines", LM + "exclusive_lock.go"), ("reference counting of waiting clients and removal of the lock object", LM + "exclusive_locker.go")], ST, LO)
p("L05", "Listing locks reports exactly the held locks",
  "A query of the locks returns exactly the currently held locks that match it, each with its key values, holder session, timeout, the number of clients that hold or wait for it and the time left until it expires.",
  ["histories", "schedules"], "every query at every point of every history of grants, heartbeats, releases and expirations",
  "Tests list a single freshly taken lock; they do not cover waiting clients, expired or released locks or the time left.",
  LF + ["pkg/models/api/locker/v1/lock.go"], [("query of the lock tree and snapshot of each lock", LM + "exclusive_locker.go")], ST, ["GET /v1/locks"])
p("L06", "The lock client keeps its lock alive and reports a lost lock",
  "A client that obtained a lock through the client library keeps it, without doing anything, until it releases it; obtaining the same lock twice in one client returns the same lock. When the lock is lost (service gone, session refused) the holder is told through its done channel, and only then; release gives the lock back.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of obtaining, holding and releasing locks in several clients, with service failures injected at any heartbeat",
  "The client is only tested against scripted fakes; whether it keeps a real lock over many heartbeats or notices its loss under faults is not exercised.",
  ["pkg/clients/locker_client/lock.go", "pkg/clients/locker_client/locker_client.go"],
  [("background heartbeat loop", "pkg/clients/locker_client/lock.go"), ("one lock object per key values", "pkg/clients/locker_client/locker_client.go")], (),
  ["the client library's obtain / release / done", "requests that arrive at the lock service"])

IL = "internal/limiter/"
MF = [IL + "counters/counter_client_local.go", IL + "rules/rules_client_local.go", IL + "overrides/overrides_client_local.go", IL + "api/v1/handlers/counters_handler.go"]
MO = ["PUT /v1/limiter/counters", "POST /v1/limiter/counters/set", "GET /v1/limiter/counters"]
CS = [("counters", "the number of units held per exact set of key values", IL + "counters/counter_client_local.go")]
p("M01", "Limits are never exceeded and never refuse without reason",
  "However many clients count at the same time, an increment is accepted exactly if every rule that applies to its key values still has room for it, counting all stored counters of the same group; a refused increment changes nothing. So the sum of the counters of a limited group never goes over its limit through increments.",
  ["schedules", "histories", "inputs"], "every concurrent mix of increments and decrements over any rules, overrides and key values",
  "The check-then-update spans several stores and distributed locks; tests count sequentially against one or two rules.",
  MF, [("locks per rule's group of key values around check and update", IL + "counters/counter_client_local.go"), ("lookup of applicable limits", IL + "rules/rules_client_local.go")], CS, MO)
p("M02", "Counters count exactly",
  "A counter's value equals the accepted increments minus decrements since it was last set, decrements never fail or take it below zero (at zero it disappears), setting replaces it without a check, and a query returns exactly the counters that match it.",
  ["histories", "schedules", "inputs"], "every sequence and concurrent mix of increments, decrements and sets over any key values",
  "Tests check single updates of single counters; lost updates and removal races need concurrent histories.",
  MF, [("atomic counter and conditional removal from the tree", IL + "counters/counter_client_local.go"), ("counter cell", IL + "counters/memory/counter.go")], CS, MO)
p("M03", "The applicable limit is decided by matching rules and their overrides",
  "A rule applies to a counter if all its key values match the counter's (an Any value matches every value of that key); if overrides of the rule match, their limits apply instead of the rule's, otherwise the rule's own limit does, and a limit of -1 means unlimited. Counters are grouped by the values the counter has for the keys of the rule (or override).",
  ["inputs", "configurations", "histories"], "every set of rules and overrides with any key values, including Any, and every counter",
  "Tests use a few hand-written rules; the matching runs over a tree of key permutations that can go wrong for particular combinations.",
  MF, [("rule matching", IL + "rules/rules_client_local.go"), ("override matching", IL + "overrides/overrides_client_local.go"), ("match of stored key values", "internal/datastructures/btree_associated/threadsafe_match.go")], CS, MO)
p("M04", "Rules and overrides behave like a consistent store",
  "Created rules and overrides are found by name, query and match until deleted, names and sets of key values are unique (duplicates are refused), updates take effect for the next decision, unknown names are refused, an override must contain its rule's key values, and deleting a rule deletes its overrides.",
  ["histories", "schedules", "inputs"], "every sequence of creations, updates, queries and deletions of rules and overrides, and concurrent creations of the same one",
  "Tests run short sequences on one rule; they do not cover long histories with re-creation or concurrent duplicates.",
  MF[1:3] + [IL + "api/v1/handlers/rules_handler.go", IL + "api/v1/handlers/overrides_handler.go"],
  [("association of ids and key values to one object", "internal/datastructures/btree_associated/threadsafe_create.go"), ("overrides kept per rule", "internal/datastructures/btree_one_to_many/btree_one_to_many.go")], (),
  ["/v1/limiter/rules", "/v1/limiter/rules/{rule}/overrides"])

WB = "internal/willow/brokers/"
WC = WB + "queue_channels/memory/memory_queue_channel.go"
WL = WB + "queue_channels/queue_channels_client_local.go"
WQ = WB + "queues/memory/memory_queue.go"
WF = [WC, WB + "queue_channels/memory/memory_queue_channel_item.go", WL]
WS = [("enqueued items", "the ordered items waiting in a channel", WC), ("running items", "items handed to a consumer and not yet acknowledged", WC)]
WO = ["POST /v1/queues/{queue}/channels/items", "GET /v1/queues/{queue}/channels/items", "POST .../items/ack", "POST .../items/heartbeat"]
p("W01", "An item is processed by one consumer at a time",
  "Between handing an item to a consumer and its acknowledgement, failure or timeout, the queue hands that item to nobody else; identifiers of running items are unique. Acknowledging or heartbeating an item that is not running is refused and changes nothing.",
  ["schedules", "histories"], "every interleaving of enqueues, dequeues, acknowledgements, heartbeats and timeouts by any number of producers and consumers",
  "Single consumption depends on the interplay of several consumers with timeouts and retries; tests use one consumer and scripted steps.",
  WF, [("hand-over of one item per dequeue and tracking as running", WC)], WS, WO)
p("W02", "No item is lost or duplicated",
  "Every accepted item is delivered until it is acknowledged as successful or has failed once more than its retry attempts allow; an acknowledged item is never delivered again, a failed or timed-out item is delivered again exactly as long as it has retries left, and its content never changes on the way.",
  ["schedules", "histories", "fault_sequences"], "every history of enqueues, acknowledgements, failures and timeouts with any retry settings",
  "Tests follow one or two items; loss and duplication show up when retries, timeouts and replaced items interleave.",
  WF, [("retry counting and re-insertion on failure", WC)], WS, WO)
p("W03", "Items come out in order",
  "Within a channel items are delivered first in, first out; a failed item that asked to be retried at the front is delivered next, and one that asked for the back is delivered after everything that was waiting.",
  ["histories", "schedules"], "every history of enqueues, dequeues and failed items with front and back retry positions",
  "Tests check two or three items in a row; they do not cover repeated failures mixed with new and replaceable items.",
  WF, [("ordered list of item ids", WC)], WS, WO)
p("W04", "A replaceable item at the end of the queue is replaced by the next one",
  "An item enqueued as updateable is replaced by the next item of the same channel as long as it is the last one waiting and was not handed out; items that are not updateable, or no longer last, are never replaced, and a replaced item is never delivered. A failed updateable item is dropped if a newer item would replace it.",
  ["histories", "schedules"], "every history of updateable and fixed items with dequeues, failures and retries in between",
  "Tests replace one item once; the rule interacts with retries to front and back and with concurrent dequeues.",
  WF, [("collapse into the last updateable item", WC)], WS, WO)
p("W05", "Running items are kept by heartbeats and fail after their timeout",
  "A running item whose consumer keeps sending heartbeats within its timeout stays with it; without a heartbeat for the timeout it fails on its own soon after and is retried or dropped. Acknowledgements, heartbeats and deletions racing with that timeout are all answered, and never bring the service down.",
  ["schedules", "histories", "fault_sequences"], "every timing of heartbeats, acknowledgements, timeouts and channel deletions",
  "The race between a firing timeout and an acknowledgement is a matter of microseconds that tests never hit.",
  WF + ["internal/heartbeater/heartbeater.go"], [("heartbeat process per running item", "internal/heartbeater/heartbeater.go"), ("failure of a timed-out item", WC)], WS, WO)
p("W06", "Enqueued and running counts agree with the items that exist",
  "The enqueued count the service keeps in the limiter always returns to the number of items a channel holds (waiting and running), and the running count to the number of its running items, whatever happened to items on the way; a queue never holds more items (waiting and running) than its maximum, refuses items beyond it only, and accepts again once there is room.",
  ["histories", "schedules", "fault_sequences"], "every history of enqueue, replace, dequeue, acknowledgement, failure, retry, timeout and deletion, with the limiter refusing or failing at any call",
  "A miscount in one path (for example a dropped retry) only shows after the queue was run long enough to fill up; tests check single paths.",
  WF + [WQ], [("enqueued counter per queue, running counter per channel", WC), ("override per queue holding its maximum size", WQ)], WS, WO + ["counters the limiter receives"])
p("W07", "Running limits bound parallel processing and channels resume",
  "Items are handed out only as long as the limits on running items of their key values allow it, so never more items of a limited group are running than its limit; and when room becomes free the channels that wait for it deliver again without outside help.",
  ["schedules", "histories", "configurations"], "every set of running limits over any key values, with any number of channels and consumers",
  "Tests use one limited channel; resuming after a limit needs the right channel to be woken up in the right order.",
  WF, [("running counter before hand-over, retry when limited", WC)], WS, WO)
p("W08", "Every waiting consumer gets items it asked for, and only those",
  "A dequeue returns only an item of a channel whose key values match its query, in the queue it named; a consumer that waits is served when such an item exists or arrives, also in channels created later, and a consumer that goes away loses no item.",
  ["schedules", "histories", "fault_sequences"], "every set of channels and queries, and every timing of channel creation, enqueues and departing consumers",
  "Tests wait on one channel; matching many channels with waiting consumers that disconnect at the moment of delivery is not exercised.",
  WF, [("waiting clients are attached to matching and new channels", WL), ("rollback when the consumer is gone", WC)], WS, WO)
p("W09", "Queues and channels have a consistent life cycle",
  "Queues are created once (duplicates are refused), listed, updated and deleted; requests for unknown queues are refused, a channel exists while it has items and disappears when it is empty or deleted, deletion removes all its items, and nothing of a deleted queue or channel comes back in one of the same name.",
  ["histories", "schedules"], "every sequence of creating, using, deleting and re-creating queues and channels, concurrently with producers and consumers",
  "Tests create and delete idle queues; deletion while items are running or consumers wait is not covered.",
  [WQ, WB + "queues/queues_client_local.go", WL, "internal/willow/api/v1/handlers/queue_handler.go", "internal/willow/api/v1/handlers/channel_handler.go"],
  [("queue tree", WB + "queues/queues_client_local.go"), ("channels per queue", WL)], (), ["/v1/queues", "/v1/queues/{queue}", "/v1/queues/{queue}/channels"])

DB = "internal/datastructures/btree/"
DA = "internal/datastructures/btree_associated/"
DF = [DB + f for f in ("btree.go", "threadsafe_b_tree.go", "threadsafe_create.go", "threadsafe_delete.go", "threadsafe_find.go", "threadsafe_destroy.go")]
p("D01", "The ordered tree is a linearizable map",
  "Concurrent creations, lookups, iterations, deletions and destructions of keys in the tree behave as if done one after the other on a map: no key is lost, doubled or resurrected, a refused deletion keeps the value, and every operation finishes. After any history each remaining key is found by every way of looking it up.",
  ["schedules", "histories", "configurations"], "every interleaving of operations over any keys, and every tree fan-out",
  "Concurrent tests insert or delete disjoint random keys and look only at the final tree; results of individual concurrent operations are not judged.",
  DF, [("hand over hand locking of nodes, splitting on the way down, rebalancing on the way up", DB)], [("tree", "map from typed keys to values", DB + "btree.go")], ["the tree's operations"])
p("D02", "Range and typed lookups return exactly the keys in range",
  "A lookup of keys equal to, different from, below or above a key (with or without the key itself), restricted to a range of data types, visits exactly the matching keys, each once; keys of different types are ordered by type, and the Any key takes part only where documented. The visit stops when asked to and leaves the tree usable.",
  ["inputs", "histories", "schedules"], "every tree content, key, comparison and type restriction, also while the tree is modified",
  "Tests use trees of one data type with small ranges; type restrictions that exclude the key's own type and early stops are not covered.",
  DF[4:5] + ["pkg/models/datatypes/encapsulated_value.go", "pkg/models/api/common/v1/type_restrictions.go"], [("pruned traversal of nodes", DB + "threadsafe_find.go")], (), ["the tree's find operations"])
p("D03", "The associated store keeps one object per id and per set of key values",
  "In the store of objects named by key values, an object is found by its id and by its exact key values from its creation to its deletion and never afterwards; a set of key values or an id never names two objects, also when creation, deletion and lookup of the same name race; failed creations leave nothing behind.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of creations (by either name), lookups, deletions and failing callbacks",
  "Tests check creation and deletion of a few objects in sequence.",
  [DA + f for f in ("threadsafe_create.go", "threadsafe_delete.go", "threadsafe_find.go", "threadsafe_associated.go")], [("two indexes and id nodes updated under ordered locks", DA + "threadsafe_create.go")], (), ["the store's operations"])
p("D04", "A query selects exactly the objects that satisfy it",
  "A query returns exactly the stored objects whose key values satisfy its selection and all of its and-queries, plus those that satisfy one of its or-queries; comparisons respect data types and type restrictions, and Any values match only where documented. Every service answers the same query over the same objects in the same way.",
  ["inputs", "configurations"], "every query (comparisons, type restrictions, counts, ids, nested and / or) over every set of stored objects",
  "Tests run tens of hand-written queries; the result is computed by set operations over indexes whose errors show only for particular combinations.",
  [DA + "threadsafe_query.go", "pkg/models/api/common/v1/query_associated_action/associated_action_query.go", "pkg/models/api/common/v1/query_associated_action/selection.go"],
  [("intersection and union of ids per key and per number of keys", DA + "threadsafe_query.go"), ("evaluation of a query on one object", "pkg/models/api/common/v1/query_associated_action/selection.go")], (), ["GET requests with a query", "match of waiting consumers to new channels"])
p("D05", "A match finds exactly the objects that apply to the given key values",
  "A match over key values returns exactly the stored objects all of whose key values are contained in or compatible with the given ones, within the requested numbers of keys and type restrictions; each object once, and stored Any values match every value where requested.",
  ["inputs", "configurations", "schedules"], "every set of stored objects and every given key values with restrictions, also while objects are being added and removed",
  "Tests use a few objects with string values.",
  [DA + "threadsafe_match.go", "pkg/models/api/common/v1/query_match_action/match_query.go", "pkg/models/api/common/v1/query_match_action/match_key_values.go"],
  [("intersection of ids over combinations of keys", DA + "threadsafe_match.go")], (), ["rule and override match requests"])
p("D06", "Destruction removes everything once and refuses what comes too late",
  "Destroying a tree, store or group deletes every object for which removal is allowed exactly once, keeps what may not be removed, and concurrent operations either take effect before it or are refused; afterwards nothing is left and new objects can be created.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of destruction with other operations, and every set of objects that refuse removal",
  "Tests destroy trees without anybody using them.",
  [DB + "threadsafe_destroy.go", DA + "threadsafe_destroy.go", "internal/datastructures/btree_one_to_many/threadsafe_destroy.go"],
  [("destroying flags checked by every operation", DB + "threadsafe_destroy.go")], (), ["destroy operations", "deletion of queues, rules and channels"])

p("A01", "Invalid requests are refused and change nothing",
  "A request whose body is malformed, misses a required part, carries a value out of its domain or names something with an unusable key is answered with a client error and leaves the state of the service untouched; well-formed requests are never refused as malformed. No request body brings a service down or leaves it blocked.",
  ["inputs"], "every request body for every endpoint of the three services",
  "Handlers and routers are essentially untested; validation is tested per model with a few bad values.",
  ["pkg/models/api/server.go", "internal/limiter/api/v1/handlers/rules_handler.go", "internal/willow/api/v1/handlers/item_handler.go", "internal/locker/api/v1/handlers/locker_handler.go"],
  [("decode and validate before use", "pkg/models/api/server.go"), ("validation per model", "pkg/models/api/")], (), ["every HTTP endpoint"])
p("A02", "Typed values keep their identity over the wire and are totally ordered",
  "Every typed value that is accepted comes back from the service as the same type and value, equal values name the same object and different ones different objects, and the comparison of values is a total order that puts types in their documented order and Any last.",
  ["inputs"], "every value of every data type, and every pair and triple of values",
  "Tests encode one sample per type and compare neighbours.",
  ["pkg/models/datatypes/encapsulated_value.go", "pkg/models/datatypes/map_string_encapsulated_value.go", "pkg/models/datatypes/datatypes.go"],
  [("encoding and decoding of values", "pkg/models/datatypes/encapsulated_value.go"), ("Less functions", "pkg/models/datatypes/encapsulated_value.go")], (), ["JSON bodies of every service", "names of rules, locks, channels and counters"])
p("C01", "The queue client keeps its item alive and reports the truth",
  "An item taken through the client library is kept running by the client until it is acknowledged; an acknowledgement that the service did not accept is reported as an error, the done channel is closed exactly when the item is no longer the client's, and no failure of the service or the network makes the client panic or hang.",
  ["schedules", "fault_sequences", "histories"], "every history of taking, holding and acknowledging items with service failures injected at any request",
  "The client is tested against scripted fakes with one request each.",
  ["pkg/clients/willow_client/item.go", "pkg/clients/willow_client/channel.go"],
  [("background heartbeat loop", "pkg/clients/willow_client/item.go")], (), ["the client library", "requests that arrive at the queue service"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
