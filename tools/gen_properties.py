#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit; the JSONL is generated and committed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))
B="cdn-broker/src/"; PR="cdn-proto/src/"
HD=B+"tasks/broker/handler.rs"; UH=B+"tasks/user/handler.rs"; CO=B+"connections/mod.rs"; VM=B+"connections/versioned_map.rs"; RM=B+"connections/broadcast/relational_map.rs"
SY=B+"tasks/broker/sync.rs"; HB=B+"tasks/broker/heartbeat.rs"; WL=B+"tasks/broker/whitelist.rs"
p("C01","Direct messages reach exactly the addressed user, once",
 "A direct message sent by an authenticated user is delivered byte-identical, exactly once, to the live session of the recipient key named in it, wherever in the network that session is, and to nobody else; if no broker is known to serve the key it is dropped silently without affecting the sender. A broker that receives a direct message from another broker only ever delivers it to a user of its own: it never passes it on to a further broker.",
 ["histories","schedules","inputs"],"every history of connects, disconnects, syncs and sends over any set of users and brokers, and every interleaving of a broker's connection tasks",
 "The broker unit tests (3 fixed scenarios, not even compiled here) send one direct message each in a static topology; they never combine sends with churn, stale routes or several brokers.",
 [HD,UH,CO,B+"tasks/user/sender.rs",B+"tasks/broker/sender.rs"],
 [("look the recipient up in the routing map; self -> user, other -> broker only if the message came from a user", HD+" handle_direct_message")],
 [("direct_map","which broker serves each user key",CO)],["messages received by user connections","messages received by peer broker connections"])
p("C02","Broadcasts reach exactly the subscribed users, once, without loops",
 "A broadcast sent by an authenticated user to a list of topics is delivered byte-identical exactly once to every user in the network subscribed to at least one listed valid topic (the sender included if subscribed) and to nobody else, however many of the topics a user or broker shares with it. It is sent once to each peer broker that announced interest in one of them, and a broker that receives a broadcast from another broker delivers it only to its own users and never to another broker.",
 ["histories","schedules","inputs"],"every history of subscribe/unsubscribe/connect/sync/broadcast with arbitrary topic lists (duplicates, unknown topics, several topics)",
 "Tests broadcast one or two messages over fixed subscriptions; duplicates, multi-topic overlap, unknown topics, churn and multi-broker loops are not sampled.",
 [HD,UH,CO,RM,PR+"def.rs"],
 [("interest set over topics, de-duplicated over recipients", CO+" get_interested_by_topic"),("to_users_only for broker-originated messages", HD)],
 [("broadcast_map","topic -> interested users and brokers",CO)],["messages received by user and broker connections"])
p("C03","Messages between two parties keep their order and content",
 "Two messages accepted from the same sender that are both destined for the same receiver arrive there in the order they were sent, with identical bytes, along every path (user to user on one broker, user to broker, across brokers). No message is duplicated, merged, truncated or replaced by another on the way.",
 ["schedules","histories"],"every interleaving of senders, receivers and broker tasks, any mix of direct and broadcast messages and sizes",
 "Existing tests send a single message per path, so order is never observed.",
 [HD,UH,PR+"connection/protocols/mod.rs",B+"tasks/user/sender.rs"],
 [("one receive loop per connection, awaiting each hand-off; FIFO channel per connection",UH+", "+PR+"connection/protocols/mod.rs")],
 observe=["sequence of messages per receiving connection"])
p("C04","Subscriptions follow the history of subscribe and unsubscribe requests",
 "At every moment the topics a connected user is subscribed to are exactly the valid topics it declared when connecting, plus those subscribed since, minus those unsubscribed since, evaluated in the order sent; unknown topics are ignored, and a later subscribe or unsubscribe request naming no valid topic ends that user's session. Subscriptions of one user never affect another's, and a new session starts from its own declared topics only.",
 ["histories","inputs"],"every history of subscribe/unsubscribe/reconnect requests with arbitrary topic lists",
 "One integration test (not compiled here) walks a single sequence; the relational map tests use three fixed states.",
 [UH,CO,RM,PR+"def.rs"],
 [("two-way relational map user<->topics",RM),("topic pruning",PR+"def.rs Topic::prune")],
 [("broadcast_map.users","user <-> topics relation",CO)],["who receives a broadcast on each topic"])
p("C05","Brokers converge on each other's topic interest",
 "Each broker announces to its peers every change of the set of topics its own users are subscribed to (immediately when a user connects, otherwise at the next periodic sync) and its complete announced set to every newly connected peer; a peer's interest in a topic is judged by the newest announcement from that peer, no matter in what order, how often or after which reconnection announcements arrive. After syncing, a broadcast is forwarded to exactly the peers that have a user subscribed to one of its topics.",
 ["histories","schedules","fault_sequences"],"every history of subscription changes, syncs, link losses and reconnects, and every reordering or duplication of sync messages",
 "Two unit tests apply two or three fixed partial syncs between two maps; no test covers reconnects, duplicates or interleaved changes on both sides.",
 [SY,CO,VM,HD],
 [("versioned topic map with diff/merge per peer",VM),("partial sync on connect and every 10 s, full sync on new peer",SY)],
 [("topic_sync_map","own topic interest, versioned",CO),("Broker.topic_sync_map","newest known interest of that peer",CO)],["TopicSync messages on broker links","brokers a broadcast is forwarded to"])
p("C06","Brokers converge on which broker serves each user",
 "Every connect or disconnect of a user is announced to all peers (a connect immediately, anything else at the next periodic sync) and every newly connected peer receives the complete map; a newer claim always replaces an older one and of two equally new claims the one from the higher-identified broker wins, independent of arrival order and repetition. Once announcements are exchanged, two connected brokers route a given user to the same broker.",
 ["histories","schedules","fault_sequences"],"every history of user connects/disconnects at several brokers, with syncs delayed, duplicated or reordered and links lost and restored",
 "Only hand-written two-map unit tests of the underlying map exist; the end-to-end convergence over schedules is untested.",
 [SY,CO,VM,HD],
 [("versioned direct map with conflict identity",VM),("partial sync on connect and every 10 s, full sync on new peer",SY)],
 [("direct_map","user -> broker, versioned",CO)],["UserSync messages on broker links","where direct messages go"])
p("C07","Versioned-map merge is newest-wins, deterministic, idempotent, complete",
 "Merging a remote map takes exactly the entries with a higher version, or an equal version and a higher conflict identity, and reports exactly those as changes; merging the same map again leaves the contents as they are. The difference taken since the last time contains exactly the keys changed locally since then (and not overruled by a merge meanwhile) with their current version and value, deletions included, so that a reader that only listens and applies every difference in the order taken holds the writer's current contents; several local edits of a key between two differences raise its version once, and a key that is inserted again after its deletion was told gets a version above that deletion's.",
 ["histories","inputs"],"every sequence of insert, remove, purge, diff, full copy and merge over several maps with arbitrary keys, values and identities",
 "Five unit tests with fixed data; merge has 12 case combinations (absent/older/equal/newer x value/tombstone x identity order x locally modified) and histories compose them.",
 [VM],[("modify_local, diff, merge, remove_by_value_no_modify",VM)],
 [("underlying_map, locally_modified_keys, conflict_identity","versioned entries, pending local changes, tie-breaker",VM)],
 ["return value of merge/diff","contents of the map"],"re-export of the map types to the harness")
p("C08","At most one live session per public key; the newest wins",
 "When a user key connects while it already has a session on the same broker, the older session is ended and the new one works normally; when a broker learns that one of its users is now served by another broker it ends its own session for that key. Nothing that later happens to an ended session (its failure, late messages, its clean-up) disturbs the session that replaced it.",
 ["schedules","histories"],"every interleaving of connects of one key at one or several brokers with sync delivery, disconnects and sends",
 "Two integration tests (not compiled here) connect twice in a fixed order; the races between old-session teardown and new-session setup depend on schedules.",
 [CO,UH,HD],
 [("add_user removes the previous session; apply_user_sync removes users claimed elsewhere",CO)],
 [("users","live sessions of this broker",CO)],["closed connections","delivery after reconnect"])
p("C09","A departed user or broker leaves nothing behind",
 "When a user session or a peer broker link ends for whatever reason, the broker stops delivering to it, drops its subscriptions or announced interest, withdraws (for a user) its routing entry and announces that, cancels its task, and the connected-users and connected-brokers gauges equal the true number of live sessions and links. Other sessions and links are unaffected.",
 ["histories","fault_sequences","schedules"],"every history of connects and of disconnects by any cause (peer closing, send failure, bad message, replacement, whitelist, sync failure)",
 "No test looks at state after a disconnect beyond the three relational-map cases.",
 [CO,B+"metrics.rs",RM,UH,HD],
 [("remove_user / remove_broker",CO)],
 [("users, brokers, broadcast_map, direct_map","all per-peer state",CO)],["gauges","sync announcements","delivery","heartbeat connection count"])
p("C10","Permits are single-use, expiring, and bound to one key and one broker",
 "A broker admits a user only for a permit that the discovery service issued for that broker, has not expired and was never redeemed before, and it admits it as exactly the public key the permit was issued for. Two concurrent attempts with the same permit admit at most one; every other attempt is refused and leaves permits of others untouched.",
 ["histories","schedules","inputs"],"every history of issue/validate by marshals and brokers with arbitrary permit numbers, brokers and times, for both discovery back ends",
 "Integration tests obtain one permit and use it once; reuse, expiry, wrong broker, and concurrency are untested.",
 [PR+"discovery/embedded.rs",PR+"discovery/redis.rs",PR+"connection/auth/broker.rs",UH],
 [("DELETE .. RETURNING / GETDEL keyed by broker and permit","discovery/*.rs validate_permit"),("verify_user",PR+"connection/auth/broker.rs")],
 [("permits","outstanding permits",PR+"discovery")],["AuthenticateResponse to the user","identity the session gets"])
p("C11","The marshal admits only fresh, correctly signed, whitelisted users",
 "The marshal issues a permit exactly when the first message proves possession of the key with a valid signature in the user-authentication namespace over a timestamp at most five seconds old, the key passes the whitelist and a live broker exists; the permit is issued for that key and the endpoint returned is the public endpoint of the broker it was issued for. In every other case (wrong message, malformed key, bad signature, other namespace, stale or future timestamp, service failure) it issues nothing and answers, if at all, with a refusal.",
 ["inputs","histories","fault_sequences"],"every first message, every key/whitelist/broker population and every discovery failure",
 "Tests authenticate honest clients, plus one whitelist case.",
 [PR+"connection/auth/marshal.rs","cdn-marshal/src/handlers.rs",PR+"connection/auth/user.rs"],
 [("verify_user",PR+"connection/auth/marshal.rs")],
 observe=["AuthenticateResponse","issue_permit calls to the discovery service"])
p("C12","Brokers peer only with brokers that prove they hold the same key",
 "A broker treats a connection as a peer broker only after the other side has proved, with a valid signature in the broker-authentication namespace over a timestamp at most five seconds old, that it holds the very key pair this broker uses, and has itself accepted this broker; in each direction of dialling. Until then nothing received on the connection has any effect and no user, topic or routing data is sent on it.",
 ["inputs","schedules"],"every sequence of messages by an arbitrary dialler or dialled endpoint",
 "No test sends a wrong key, namespace, stale timestamp or out-of-order handshake.",
 [PR+"connection/auth/broker.rs",HD,HB],
 [("verify_broker / authenticate_with_broker, both required in either order",PR+"connection/auth/broker.rs")],
 observe=["messages on the candidate connection","broker gauge and later traffic"])
p("C13","The whitelist gates admission and is enforced on connected users",
 "While no whitelist has been set everybody is admitted; once one is set, exactly its members are, each update replacing the previous list as a whole. Within about a minute of a change every broker ends the sessions of connected users that are no longer listed and no others, and a failure to look up the list never ends a session.",
 ["histories","fault_sequences","schedules"],"every history of whitelist updates, connects and lookup failures",
 "One integration test sets one whitelist for the marshal path only.",
 [PR+"discovery/embedded.rs",PR+"discovery/redis.rs",WL,PR+"connection/auth/marshal.rs"],
 [("set_whitelist / check_whitelist","discovery/*.rs"),("whitelist task every 60 s, errors count as allowed",WL)],
 [("whitelist","set of admitted keys",PR+"discovery")],["closed connections","marshal responses","check_whitelist results"])
p("C14","Users are sent to the live broker with the least load",
 "The broker chosen for a user is one whose registration has not expired and whose number of reported connections plus permits issued for it and still outstanding is minimal among such brokers; with none registered the request fails. The load a broker reports is its actual number of connected users at each heartbeat.",
 ["histories","inputs"],"every history of heartbeats, expiries, issued and redeemed permits over any number of brokers, both back ends",
 "No test registers more than one broker with differing load.",
 [PR+"discovery/embedded.rs",PR+"discovery/redis.rs",HB,PR+"connection/auth/marshal.rs"],
 [("get_with_least_connections","discovery/*.rs"),("heartbeat publishes num_users",HB)],
 [("brokers, num_connections, permits","registered brokers and load",PR+"discovery")],["broker returned to the user"])
p("C15","Discovery lists exactly the brokers with an unexpired heartbeat",
 "Asking for the other brokers returns exactly the brokers whose latest heartbeat has not expired, never the asker itself, each with the endpoints it registered; a repeated heartbeat extends the registration and replaces its load without duplicating it. Expired brokers reappear with their next heartbeat.",
 ["histories","inputs"],"every history of heartbeats with arbitrary expiries by any set of brokers, both back ends",
 "No test lets a heartbeat expire or registers the same broker twice.",
 [PR+"discovery/embedded.rs",PR+"discovery/redis.rs",PR+"discovery/mod.rs"],
 [("perform_heartbeat, prune, get_other_brokers","discovery/*.rs")],
 observe=["get_other_brokers result"])
p("C16","Live brokers form a full mesh with one link per pair",
 "At every heartbeat a broker dials exactly the registered brokers that it is not connected to and whose identifier is not lower than its own, so each pair of live brokers is linked by exactly one side dialling, and a lost link or a restarted broker is linked again at the next heartbeat. One unreachable, slow or refusing broker never prevents links with the others, and registration is repeated at each heartbeat even when discovery calls fail.",
 ["histories","schedules","fault_sequences","configurations"],"every set of broker identifiers, every order of starts, stops, link losses and discovery failures",
 "One integration test (not compiled here) starts two brokers.",
 [HB,HD,CO],[("difference with connected brokers, identifier filter, one task per dial",HB)],
 observe=["connection attempts at listening brokers","perform_heartbeat calls"])
p("C17","Framed transport: intact, ordered, bounded messages; close flushes",
 "Over every transport a connection delivers exactly the sequence of messages sent, each unchanged, until one side fails; after that the receiver sees an error and never a partial or invented message. A frame announcing more than the maximum message size, or one whose body does not follow its size within five seconds, ends the connection, and so does a peer that takes nothing in while something is to be written to it (for five seconds; whoever sends on it afterwards is told). A soft close returns successfully only after everything sent before it has been written out, and with an error as soon as that has become impossible.",
 ["inputs","schedules","fault_sequences"],"every sequence of message sizes from empty up, any segmentation and stalls of the byte stream, failures at any byte, all transports",
 "Each protocol has one test that exchanges two fixed short messages.",
 [PR+"connection/protocols/mod.rs",PR+"connection/protocols/tcp.rs",PR+"connection/protocols/tcp_tls.rs",PR+"connection/protocols/quic.rs",PR+"connection/protocols/memory.rs"],
 [("read/write_length_delimited, sender/receiver tasks, SoftClose",PR+"connection/protocols/mod.rs")],
 observe=["messages and errors returned by the connection API","raw bytes on a socket"])
p("C18","Received bytes never exceed the memory pool and are always returned",
 "The total size of received messages that are held anywhere in a process sharing one memory pool never exceeds the pool, a reader waiting for room proceeds as soon as enough is released, and each message's share is released exactly once: when its last holder drops it, or its connection dies half way. A connection waiting for room or dying never makes unrelated messages lose their share, and a message that is larger than the whole pool ends its own connection and delays no other.",
 ["schedules","histories","fault_sequences"],"every interleaving of arrivals, hand-offs, clones, drops and connection failures over connections sharing a pool",
 "No test sets a pool size.",
 [PR+"connection/limiter/mod.rs",PR+"connection/limiter/pool.rs",PR+"connection/protocols/mod.rs"],
 [("semaphore permits owned by the received bytes, acquired before the buffer is allocated",PR+"connection/limiter/pool.rs")],
 [("pool semaphore","free bytes",PR+"connection/limiter/pool.rs")],["which receives complete, as messages are held and dropped"])
p("C19","Malformed or unexpected input harms only its own connection",
 "A user that sends bytes that do not decode, or any message a user may not send (authentication or sync messages), is disconnected and that message has no other effect; a peer broker that sends undecodable bytes or an undecodable sync payload is disconnected, and other message kinds a broker does not expect are ignored. No input from one connection ends the broker, marshal or another connection, and a connection that does not finish authenticating within five seconds is dropped.",
 ["inputs","histories"],"every byte string and message kind in every connection state, from users and brokers",
 "No test sends anything malformed.",
 [UH,HD,PR+"message.rs",B+"tasks/user/listener.rs",B+"tasks/broker/listener.rs","cdn-marshal/src/handlers.rs"],
 [("receive loops return on error, per-connection tasks, 5 s timeouts",UH+", "+HD)],
 observe=["closed connections","traffic of the other connections"])
p("C20","The message hook sees every message and its verdict is obeyed",
 "For each message received from an authenticated user or broker the configured hook of that side is called exactly once, in order, with the decoded message, by a hook instance of that connection's own that was told the sender's identifier first. 'Skip' suppresses all effects of the message, 'process' lets it take effect once, as the hook leaves it (it may change it, e.g. its recipient or topics), and an error ends the connection without the message taking effect.",
 ["histories","inputs"],"every hook (any function of sender, message and its own past) and every message sequence",
 "All tests run with the no-op hook.",
 [UH,HD,PR+"def.rs"],
 [("on_message_received before dispatch, clone per connection, set_identifier(hash(key))",UH+", "+HD)],
 observe=["hook invocations","effects after each verdict"])
p("C21","The client keeps at most one session and restores it with its topics",
 "A client that has lost its connection fails the current call, starts at most one reconnection at a time in the background, retries until it succeeds, and the restored session is subscribed to exactly the topics whose subscription had been acknowledged to the caller and not unsubscribed; calls made meanwhile fail or wait until the reconnection is over, and only the session a call has used is given up on its failure. After close every call fails, no reconnection happens any more and close returns promptly, whatever was going on; repeating a subscription that is already held does not harm the session.",
 ["schedules","fault_sequences","histories"],"every interleaving of calls from several clones with connection failures, refusals, slow servers and close",
 "Integration tests (not compiled here) exercise one reconnect.",
 ["cdn-client/src/lib.rs",PR+"connection/auth/user.rs"],
 [("single-permit reconnection guard, background task, subscribed_topics kept under a lock","cdn-client/src/lib.rs")],
 [("connection, connecting_guard, reconnection_task, subscribed_topics","client session state","cdn-client/src/lib.rs")],["what marshal and broker see","results of client calls"])
p("C22","Messages mean the same to sender and receiver, byte for byte",
 "Encoding any message and decoding it yields that message, whatever its kind and its content's size or value, from empty up to the largest allowed frame; the encoding is the one the published Cap'n Proto schema lays down, and any valid encoding under it, including those of implementations with a newer or older version of the schema or another layout, is read as the message it stands for. Bytes that are no message are reported as an error, never a crash; a broker's identifier parses back into the two endpoints it was written from, and a text with no separator is refused.",
 ["inputs"],"every message of every kind with every content and size; every encoding of it; every byte string; every identifier",
 "Unit tests round-trip one small message of each kind through the same code and never look at the bytes.",
 [PR+"message.rs","cdn-proto/schema/messages.capnp",PR+"discovery/mod.rs",PR+"util.rs"],
 [("Message::serialize / deserialize",PR+"message.rs"),("BrokerIdentifier Display, TryFrom, Ord",PR+"discovery/mod.rs")],
 observe=["bytes produced by serialize","result of deserialize","parsed identifiers"])
p("C23","Users only talk to servers certified by the authority they trust",
 "Over TLS and QUIC a connection is set up only with a server that holds the key of a currently valid certificate for the name 'espresso' issued by the authority chosen, the local one or the production one and never both; any other server is sent nothing. A client holds to this for the marshal as well as for the broker the marshal names, and marshals and brokers present a certificate of the authority they are configured with, so that legitimate ones are always reached. A server that is silent, speaks another protocol or goes away makes the attempt fail in bounded time, and those who open connections and say nothing delay nobody else.",
 ["inputs","configurations","schedules"],"every certificate (issuer, name, validity, key), either authority, every server behaviour, every pair of marshal and broker",
 "Tests use the local authority with its own certificates only; none presents a wrong one.",
 [PR+"crypto/tls.rs",PR+"connection/protocols/tcp_tls.rs",PR+"connection/protocols/quic.rs","cdn-client/src/lib.rs","cdn-marshal/src/lib.rs","cdn-broker/src/lib.rs"],
 [("generate_root_certificate_store, generate_cert_from_ca, load_ca",PR+"crypto/tls.rs"),("connect: server name, roots, time-outs",PR+"connection/protocols/tcp_tls.rs, quic.rs")],
 observe=["results of connect","what servers receive","sessions of a real client"])
p("C24","What a process publishes about itself is true",
 "The bytes counted as sent and received are those of exactly the messages wholly written to and wholly read from connections, each counted once, whatever their sizes and also when connections fail, stall or are closed half way. Each share of the memory pool adds one latency observation when it is given back, as long as it was held. Every 30 s the running latency becomes the mean of the observations since the last time, and stays as it was if there were none. The metrics page of a broker and of a marshal serves these values and the number of users and brokers connected.",
 ["inputs","schedules","faults","histories"],"every sequence of messages, sizes and failures; every sequence of observations and windows",
 "No test reads a metric.",
 [PR+"metrics.rs",PR+"connection/metrics.rs",PR+"connection/protocols/mod.rs",PR+"connection/limiter/mod.rs","cdn-broker/src/metrics.rs"],
 [("running_latency_calculator, serve_metrics",PR+"metrics.rs"),("write_length_delimited, read_length_delimited",PR+"connection/protocols/mod.rs"),("Drop for AllocationPermit",PR+"connection/limiter/mod.rs")],
 observe=["total_bytes_sent","total_bytes_recv","latency","running_latency","GET /metrics"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
open(out,"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P),[x["id"] for x in P if len(x["title"])>80])
