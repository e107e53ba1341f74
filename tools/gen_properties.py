"""Writes /verif/properties.jsonl."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


UH = "cdn-broker/src/tasks/user/handler.rs"
BH = "cdn-broker/src/tasks/broker/handler.rs"
CO = "cdn-broker/src/connections/mod.rs"
VM = "cdn-broker/src/connections/versioned_map.rs"
RM = "cdn-broker/src/connections/broadcast/relational_map.rs"
US = "cdn-broker/src/tasks/user/sender.rs"
BS = "cdn-broker/src/tasks/broker/sender.rs"
HB = "cdn-broker/src/tasks/broker/heartbeat.rs"
SY = "cdn-broker/src/tasks/broker/sync.rs"
WL = "cdn-broker/src/tasks/broker/whitelist.rs"
MA = "cdn-proto/src/connection/auth/marshal.rs"
BA = "cdn-proto/src/connection/auth/broker.rs"
UA = "cdn-proto/src/connection/auth/user.rs"
PR = "cdn-proto/src/connection/protocols/mod.rs"
MSG = "cdn-proto/src/message.rs"
EM = "cdn-proto/src/discovery/embedded.rs"
RE = "cdn-proto/src/discovery/redis.rs"
CL = "cdn-client/src/lib.rs"
DEF = "cdn-proto/src/def.rs"
SIM = "cfg pushcdn_verif: Connection::verif_from_streams (a Connection over the harness's own streams)"
MAP = "cfg pushcdn_verif: the broker's connection state re-exported"

prop("P01", "A broadcast reaches exactly the current subscribers of its topics, once each",
     "A broadcast that a connected user sends is delivered, once and unaltered, to every user of the same broker whose subscriptions at that moment include at least one of the message's topics (the sender too, if it is subscribed), and to nobody else. "
     "A subscription starts with the topics given when connecting, and each subscribe and unsubscribe takes effect in the order the user sent it relative to that user's own messages. "
     "Repeated topics and topics outside the deployment's topic set change nothing, in subscriptions as in messages, as long as one valid topic is named.",
     ["histories", "inputs", "schedules"],
     "every history of connects, leaves, reconnects, subscribes, unsubscribes and broadcasts of any number of users, every topic list, every interleaving of different users' traffic",
     "The broker tests send one or two fixed messages to fixed users with fixed topics injected into the broker's state; no test unsubscribes through a connection, repeats topics, overlaps topics, or changes membership between messages.",
     [UH, BH, CO, RM, DEF],
     [("recipient set", f"{BH} handle_broadcast_message; {CO} get_interested_by_topic"), ("two-way topic map", RM), ("topic pruning", f"{DEF} Topic::prune"), ("subscribe / unsubscribe", UH)],
     ["messages each user receives on its connection"], [("broadcast_map.users", "user <-> topic relation", CO)], SIM)

prop("P02", "A direct message reaches exactly its recipient, once, wherever it is connected",
     "A direct message that a connected user sends is delivered, once and unaltered, to the user whose public key it names if that user is connected to this broker or to a peer that announced it, and to nobody else. "
     "Keys are compared as whole byte strings, so a key that is a prefix, an extension or a near copy of another is a different recipient. "
     "A message for a user that is connected nowhere is dropped and disturbs neither the sender nor anyone else.",
     ["histories", "inputs", "schedules"],
     "every history of connects, leaves, moves between brokers and direct messages; every recipient byte string; every message size",
     "The tests send one fixed message per case to keys 0, 1 and 2; nobody leaves, moves or has a similar key, and nothing is sent to unknown users while others are watched.",
     [BH, CO, US, BS, VM],
     [("routing by the replicated user map", f"{BH} handle_direct_message"), ("local delivery", US), ("forwarding", BS)],
     ["messages each user and each peer broker receives"], [("direct_map", "user -> broker that holds it", CO)], SIM)

prop("P03", "Between brokers: once to each interested peer, one hop only, never back",
     "A broadcast from a user is forwarded exactly once to each connected peer broker that announced interest in one of its topics, and to no other peer; a direct message from a user is forwarded exactly once to the peer holding the recipient, and to no other. "
     "A message that arrived from a peer is delivered to local users only and is never sent to any broker, including the one it came from.",
     ["histories", "inputs", "configurations"],
     "every number of peers, every history of interest and user announcements (added, withdrawn, repeated), every origin (user or peer) of every message",
     "Loops and duplicate forwarding need several peers with overlapping interests and messages of both origins; the tests use at most two peers with fixed interests and check a handful of deliveries.",
     [BH, CO, SY, BS],
     [("to_users_only / to_user_only", BH), ("peer interest from topic sync", f"{CO} apply_topic_sync"), ("user location from user sync", f"{CO} apply_user_sync")],
     ["frames each scripted peer broker receives"], [("broadcast_map.brokers", "peer <-> topic relation", CO)], SIM)

prop("P04", "Messages between two parties stay whole and in order",
     "Between any sender and any receiver, the messages that reach the receiver do so in the order in which they were sent, each byte for byte as sent, at most once, and without gaps as long as the connections on the path stay up. "
     "This holds whatever the message sizes, the number of other senders, the way the transport splits the bytes, and how slowly the receiver reads.",
     ["schedules", "inputs", "histories"],
     "every interleaving of concurrent senders and receivers, message size, fragmentation and backpressure, on every transport",
     "Tests send single messages and wait for each; ordering, interleaving of large messages and backpressure never arise.",
     [PR, BH, UH, US, BS, CL],
     [("one sender task per connection, queue in order", f"{PR} from_streams"), ("length-delimited framing", f"{PR} read_length_delimited / write_length_delimited"), ("sequential receive loop", UH)],
     ["the sequence numbers and checksums received by every client"], (), SIM)

prop("P05", "A client's message reaches its audience across the whole mesh",
     "In a deployment of any number of brokers that have found each other, a message that a client sends is received exactly once by every client it is addressed to (all subscribers of its topics, or the named user), no matter which brokers the sender and the receivers were assigned to, once the subscriptions and connections had one synchronisation interval to spread. "
     "Clients it is not addressed to do not receive it.",
     ["configurations", "histories", "schedules"],
     "every number of brokers, every placement and movement of clients, every subscription pattern, every start order",
     "The one end-to-end test with two brokers uses two clients and one message; it depends on real time and on a fixed placement.",
     [BH, SY, HB, CO, MA, BA, CL],
     [("full sync on connect, partial sync on change and every 10 s", SY), ("heartbeat connects the mesh", HB), ("one-hop forwarding", BH)],
     ["messages each client receives, via the public client API"], (), SIM)

prop("P06", "One session per key: the newest wins and outlives the old one's end",
     "When a user authenticates with a key that already has a session, on the same broker or on another one of the mesh, the older session is ended and the newer one receives everything from then on, with its own subscriptions only. "
     "Nothing that the older session does or suffers afterwards (late data, errors, closing, failed sends) ends, re-subscribes or otherwise affects the newer one. "
     "The same holds between two brokers: a new connection between them replaces the old one, whose end does not take the new one down.",
     ["histories", "schedules"],
     "every sequence of connects, reconnects and moves of one key across brokers, with the old connection ending before, during or after",
     "Tests check one double connect; no test lets the old session end after the new one is in place, moves a user back and forth, or looks at what happens to the new session afterwards.",
     [CO, UH, BH, US, BS, VM],
     [("add_user removes the previous session", f"{CO} add_user"), ("user sync removes users that moved", f"{CO} apply_user_sync"), ("session end", f"{UH} handle_user_connection")],
     ["which sessions are open, and which of them receives"], [("users", "key -> connection and task", CO)], SIM)

prop("P07", "A departure leaves nothing behind",
     "After a user's connection ends, for whatever reason, the broker no longer counts it, no longer sends it anything, and no longer tells peers about it: within one synchronisation interval every peer stops forwarding messages for that user, and messages for topics that no remaining user of that broker subscribes to. "
     "The number of users the broker reports to discovery and in its metrics equals the number of users that are connected, after any history.",
     ["histories", "fault_sequences"],
     "every history of connects, reconnects, replacements, evictions, clean and unclean closes of users and peer brokers",
     "Leaks show only over histories of joins and departures; tests never look at state after a disconnect, at the gauges, or at what peers are told.",
     [CO, RM, SY, HB, UH],
     [("remove_user / remove_broker", CO), ("remove_key of both directions", RM), ("previous_subscribed_topics and the topic diff", f"{CO} get_partial_topic_sync"), ("tombstones", VM)],
     ["frames to peers, heartbeat count, metrics gauges"], [("previous_subscribed_topics", "what peers were last told", CO)], SIM)

prop("P08", "The marshal hands a permit only to the holder of a key, freshly proven",
     "The marshal answers with a permit only if the request carries a well-formed public key, a signature by that key, in the user authentication namespace, over a timestamp within five seconds of its own clock, and the key is allowed by the whitelist in force; the permit it issues is for exactly that key and for the broker it names. "
     "Every other request (wrong message, malformed key, forged, altered, future-dated or later replayed signature, no broker, discovery failure, silence) gets a refusal or no answer, never a permit, and never affects other requests. "
     "No permit it hands out is one of the values reserved for refusal and success.",
     ["inputs", "fault_sequences", "schedules"],
     "every request byte string, every timestamp, every clock skew, every discovery failure, every order and concurrency of requests",
     "Tests authenticate one honest client; no request is forged, late, early, from another namespace or for another key.",
     ["cdn-marshal/src/handlers.rs", "cdn-marshal/src/lib.rs", MA, "cdn-proto/src/crypto/signature.rs"],
     [("verify_user", MA), ("5 s limit per connection", "cdn-marshal/src/handlers.rs"), ("namespaced signatures", "cdn-proto/src/crypto/signature.rs")],
     ["marshal's answers; permits recorded by discovery"], (), SIM)

prop("P09", "A permit works once, at the broker it names, for its lifetime, for one key",
     "A permit that was issued can be redeemed at most once, however many attempts race, only at the broker it was issued for, and only until it expires; redeeming it yields exactly the key it was issued for, and any other attempt yields nothing and uses up nothing. "
     "This holds for both discovery back ends.",
     ["histories", "schedules", "inputs"],
     "every interleaving of issue, redeem and expiry by any number of marshals and brokers; every permit value",
     "One embedded test redeems a few permits sequentially; races, expiry, the Redis back end and permits of several brokers at once are not exercised.",
     [EM, RE, "cdn-proto/src/discovery/mod.rs"],
     [("DELETE ... RETURNING", f"{EM} validate_permit"), ("GETDEL", f"{RE} validate_permit"), ("expiry column and pruning / EX", f"{EM} issue_permit, prune")],
     ["return values of issue_permit and validate_permit; commands on the wire to Redis"], [("permits", "identifier, permit, key, expiry", EM)], None)

prop("P10", "A broker admits a user only with a permit redeemed at that broker",
     "Nobody becomes a user of a broker, receives a message, or has a message routed, before a valid permit was redeemed at that broker and the initial subscription was received, and the session then acts for exactly the key that the permit was issued for. "
     "A connection that presents anything else, or does not finish within five seconds, is refused or dropped without any effect on others, even while discovery is slow or failing.",
     ["inputs", "schedules", "fault_sequences"],
     "every first bytes of a connection, every permit, every timing of the handshake steps, every discovery failure, any number of connections stuck in the handshake",
     "Tests that authenticate use valid permits; most inject connections past authentication.",
     [UH, BA, "cdn-broker/src/tasks/user/listener.rs"],
     [("verify_user", BA), ("5 s timeout", f"{UH} handle_user_connection"), ("one task per connection", "cdn-broker/src/tasks/user/listener.rs")],
     ["answers, deliveries and disconnects seen by hostile and honest connections"], (), SIM)

prop("P11", "Brokers accept each other only after mutual proof of the shared key",
     "A connection becomes a broker peer only after the other side proved possession of the deployment's broker key with a fresh signature in the broker authentication namespace, and the broker proved itself in turn; until then nothing is sent on it but the handshake and nothing on it is acted upon. "
     "A signature made for another purpose (such as a user's authentication), by another key, altered, or more than five seconds old or ahead, is refused, as is a handshake that takes longer than five seconds; other connections are unaffected.",
     ["inputs", "schedules"],
     "every first messages of a connection on the private endpoint, inbound and outbound; every key, namespace and timestamp",
     "Tests connect brokers with the same honest code on both sides, or inject peers past authentication.",
     [BH, BA, "cdn-proto/src/crypto/signature.rs", "cdn-broker/src/tasks/broker/listener.rs"],
     [("verify_broker", BA), ("authenticate_with_broker", BA), ("5 s timeout", BH)],
     ["what hostile and honest peers are sent, and the effect of what they send"], (), SIM)

prop("P12", "The wire codec is faithful, and total on hostile bytes",
     "Every message of every kind, with any field contents, decodes to itself after encoding, and a recipient's view of a forwarded message equals the sender's. "
     "Decoding any byte string, and applying any state announcement from a peer, either succeeds or returns an error: it never panics, hangs, allocates out of proportion, or touches memory it should not.",
     ["inputs"],
     "every message value, and every byte string presented as a message or as a state announcement",
     "One test round-trips one instance of each kind; no malformed input is ever decoded.",
     [MSG, "cdn-proto/schema/messages_capnp.rs", BH, VM],
     [("serialize / deserialize", MSG), ("validated archive decoding", BH)],
     ["return values, panics, sanitizer reports"], (), MAP)

prop("P13", "Every transport frames, bounds and ends connections correctly",
     "On each transport, messages written to a connection come out at the other end whole, unaltered and in order, whatever their size up to the limit and however the bytes are split; a frame announcing more than the limit is refused without allocating it, and a truncated frame is an error and never a message. "
     "A soft close succeeds only after everything sent before it was handed over to the transport, and when one end goes away the other end's pending and later operations fail within bounded time instead of hanging; a connection on which nothing is said lasts. "
     "Several connections to one endpoint never mix. "
     "On the encrypted transports a connection is made only to an endpoint whose certificate the chosen authority signed.",
     ["inputs", "schedules", "fault_sequences"],
     "every message size and split, every point at which a connection is cut, every number of concurrent connections, each of Memory, TCP, TCP+TLS and QUIC",
     "The transport tests send one small message each way on one connection; limits, truncation, close semantics and concurrency are not tested.",
     [PR, "cdn-proto/src/connection/protocols/memory.rs", "cdn-proto/src/connection/protocols/tcp.rs", "cdn-proto/src/connection/protocols/tcp_tls.rs", "cdn-proto/src/connection/protocols/quic.rs"],
     [("framing and size check", f"{PR} read_length_delimited"), ("sender task / receiver task and their channels", f"{PR} from_streams"), ("SoftClose", f"{PR} soft_close")],
     ["results of send, receive and close at both ends"], (), SIM)

prop("P14", "Message memory stays within the pool and is always given back",
     "The bytes of received messages that are held at any time, across all connections that share a pool, never exceed the pool's size, and all of it becomes available again once the messages were dropped or their connections ended, after any history including errors, truncated messages, slow readers and disconnects. "
     "A connection limited to a number of queued messages never holds more than that in its queue.",
     ["histories", "fault_sequences", "schedules"],
     "every history of messages, clones, slow consumers, cuts in mid-message and disconnects on any number of connections sharing a pool",
     "One unit test allocates and drops from the pool directly; no test runs connections into the limit or checks the pool after errors.",
     ["cdn-proto/src/connection/limiter/mod.rs", "cdn-proto/src/connection/limiter/pool.rs", PR, US],
     [("semaphore permits owned by the buffer", "cdn-proto/src/connection/limiter/pool.rs"), ("permit taken before the buffer", f"{PR} read_length_delimited"), ("bounded queues", "cdn-proto/src/connection/limiter/mod.rs")],
     ["whether a probe message of the whole pool's size gets through after the history; bytes held"], [("semaphore", "free bytes", "cdn-proto/src/connection/limiter/pool.rs")], SIM)

prop("P15", "One misbehaving connection harms only itself",
     "A connection that sends undecodable data, messages not allowed in its role, only unknown topics, partial frames, or nothing, that stops reading, or that disappears at any point, never panics or stops the broker or the marshal and never delays, loses or alters traffic between others beyond a bounded time; an authenticated user or peer that breaks the protocol is disconnected. "
     "Afterwards the offender's key can connect again.",
     ["inputs", "fault_sequences", "schedules"],
     "every byte string at every stage of every kind of connection, every fault at every point, alongside any honest traffic",
     "Tests only contain well-behaved parties; the two 'bad' binaries are manual stress tools without an oracle.",
     [UH, BH, US, BS, PR, "cdn-broker/src/tasks/user/listener.rs", "cdn-marshal/src/lib.rs"],
     [("error ends the session", UH), ("sender task per connection, write timeout", PR), ("listener spawns a task per connection", "cdn-broker/src/tasks/user/listener.rs")],
     ["honest users' deliveries and delays, offenders' disconnection, liveness of the main tasks"], (), SIM)

prop("P16", "Only whitelisted users connect, and those removed are put out in time",
     "While a whitelist is set, a user that is not on it is refused by the marshal, and a connected user that is taken off it is disconnected within about a minute, while users that remain on it keep their sessions; without a whitelist everyone is allowed. "
     "Replacing the whitelist takes effect as a whole: at no moment is a user that is on both the old and the new list refused, or one that is on neither allowed. "
     "If the whitelist cannot be read, connected users stay and new ones are not admitted; a lookup that fails or gets no answer concerns that user only.",
     ["histories", "schedules", "fault_sequences"],
     "every sequence of whitelist changes against every population of users, with concurrent lookups and lookup failures",
     "One embedded test sets a whitelist once and asks twice; eviction, replacement under concurrency, and failures are not tested.",
     [WL, MA, EM, RE],
     [("periodic check of every user", WL), ("check before issuing a permit", MA), ("set_whitelist / check_whitelist", f"{EM}, {RE}")],
     ["refusals, disconnections and lookups"], [("whitelist", "allowed keys", EM)], SIM)

prop("P17", "New users go to the least loaded live broker",
     "The broker that discovery names for a new user is one whose registration has not expired, and no other such broker has fewer users and outstanding permits together; if none is registered the answer is an error. "
     "A broker's registration carries its latest reported user count, appears with its first heartbeat, and disappears when its heartbeats have stopped for the given expiry; the list of other brokers contains exactly the live registrations except the asking broker's own.",
     ["histories", "configurations"],
     "every history of heartbeats, expiries, permits issued, redeemed and expired, over any number of brokers",
     "The embedded test compares two brokers once; expiry, ties, permits of several brokers and the Redis back end are not covered.",
     [EM, RE, "cdn-proto/src/discovery/mod.rs"],
     [("get_with_least_connections", f"{EM}, {RE}"), ("perform_heartbeat with expiry", f"{EM}, {RE}"), ("get_other_brokers", f"{EM}, {RE}")],
     ["return values of the discovery client against a model"], [("brokers", "identifier, connections, expiry", EM)], None)

prop("P18", "The client reconnects by itself and keeps its subscriptions",
     "After a connection failure at any point, including during connecting, a client that is not closed gets connected again without help once a marshal and a broker are reachable, within bounded time of that moment, and it then has exactly the subscriptions that its successful subscribe and unsubscribe calls add up to. "
     "Calls made meanwhile fail or wait but do not panic, do not silently succeed without effect on a later connection, and attempts are not made in a tight loop. Whenever ensure_initialized reports success, the client is connected at that moment, and can be used for as long as that connection lasts.",
     ["fault_sequences", "schedules", "histories"],
     "every sequence of outages, refusals, hangs, partial handshakes and broker changes, at every point of every client call",
     "One test drops a connection once; failures inside the handshake, repeated failures and subscription changes around them are not tested.",
     [CL, UA],
     [("reconnection task and semaphore", f"{CL} get_connection / reconnect"), ("waiting for the first connection", f"{CL} ensure_initialized"), ("subscribed_topics replayed on connect", f"{CL} connect"), ("2 s pause, 10 s limit", CL)],
     ["what a scripted marshal and broker see; call results; connection attempts"], [("subscribed_topics", "what the client means to be subscribed to", CL)], SIM)

prop("P19", "Closing a client is final, and its subscription calls are idempotent",
     "After close returns, every call on the client and its clones fails promptly, calls that were waiting are released with an error, the connection is given up, and no connection is ever attempted again, whatever was in progress. "
     "Subscribing to what is already subscribed and unsubscribing from what is not succeed, and change nothing on the broker and nothing about the connection.",
     ["schedules", "histories"],
     "close at every point of every other call and of the connection's life, from any number of clones; every repetition of subscribe and unsubscribe",
     "No test calls close, and none repeats a subscription.",
     [CL],
     [("semaphore closed, task aborted, connection taken", f"{CL} close"), ("set difference before sending", f"{CL} subscribe / unsubscribe")],
     ["call results, connection attempts after close, frames the broker receives"], (), SIM)

prop("P20", "Brokers' views of users and topics converge to the truth",
     "Whatever connects, departures and moves happened, and in whatever order their announcements travelled between brokers (each link in order, an announcement possibly several times in a row), through broken and re-made links and restarted brokers, once changes stop and every broker's announcements have reached all others, every broker routes a connected user to the broker it last connected to, or to the same single broker on all of them if it is connected to several, and knows no location for users that left. "
     "A broker's view of each peer's topics equals the set of topics that peer's users hold. "
     "Applying an announcement twice, or one that is older than what is known, changes nothing.",
     ["histories", "schedules"],
     "every history of local changes on any number of brokers interleaved with every delivery schedule of partial and full announcements",
     "Unit tests merge two maps once or twice; conflicts among three brokers, tombstones, duplicates and late announcements in all orders are far beyond them.",
     [VM, CO, SY],
     [("version comparison and tie break", f"{VM} merge"), ("local change log", f"{VM} modify_local / diff"), ("kicking users that moved", f"{CO} apply_user_sync")],
     ["location lookups and interest on every broker at quiescence"], [("underlying_map", "key -> version, value or tombstone", VM)], MAP)

prop("P21", "The broker mesh forms and re-forms by itself",
     "Any set of live brokers that see each other in discovery ends up with exactly one working connection between each pair within a few heartbeat intervals of the last disturbance, whatever the start order, broken links, crashes and restarts, discovery errors or hangs in between, and then exchanges the complete state. "
     "While discovery or a peer is unreachable a broker keeps serving its users, keeps trying, and does so at its normal pace.",
     ["fault_sequences", "configurations", "schedules"],
     "every number of brokers, start order, and sequence of link cuts, crashes, restarts, refusals, hangs and discovery outages",
     "One test starts two brokers and waits; failures and re-formation are never exercised.",
     [HB, BH, SY, "cdn-broker/src/lib.rs"],
     [("heartbeat every 10 s, connect to larger identifiers that are missing", HB), ("full sync on connection", BH), ("timeouts on discovery calls", HB)],
     ["open links between each pair, deliveries across, discovery calls per unit of time"], (), SIM)

prop("P22", "A message hook decides each message's fate, and only that",
     "For every message that a user or a peer sends, the hook configured for that side is called exactly once, in order, with the message as received and with the identity of that connection, and its verdict is obeyed: process, ignore this message, or disconnect the sender. "
     "Each connection has its own hook instance, and what happens to one connection's hook does not show in another's.",
     ["histories", "inputs"],
     "every sequence of messages of every kind, every pattern of verdicts, any number of concurrent connections on both sides",
     "No test configures a hook that does anything.",
     [UH, BH, DEF, "cdn-proto/src/util.rs"],
     [("hook cloned per connection and told the identity", UH), ("verdict before routing", f"{UH}, {BH}")],
     ["calls the hook records, messages that pass, sessions that end"], (), SIM)

prop("P23", "Connections leave nothing behind, however they end",
     "However a connection ends, or fails to come about, at a broker, a marshal or a client, at whatever stage and whoever ends it (also a client whose handles are all dropped without close, at any moment), the component gives up what it held for it: its tasks end, its streams and sockets are closed so that the other side learns of it, and its memory is released. "
     "After any number of connections that came and went the process holds what it held before them.",
     ["fault_sequences", "histories", "schedules"],
     "every stage at which a connection can end, every way and every side, in any number and mixture, on every transport",
     "No test looks at what remains of an ended connection.",
     [UH, BH, CO, PR, MA, BA, CL, "cdn-marshal/src/lib.rs", "cdn-broker/src/tasks/user/listener.rs", "cdn-proto/src/connection/protocols/quic.rs", "cdn-proto/src/connection/protocols/tcp_tls.rs"],
     [("abort on drop of the connection's tasks", PR), ("abort handles of the receive loops", CO), ("soft close", PR), ("reconnection task", CL)],
     ["number of live tasks, open links or file descriptors, allocated bytes, before and after"], (), SIM)

prop("P24", "What the metrics say is what happened",
     "Each process's metrics agree with what it did: the byte totals equal the sizes of the messages received and sent so far, the connection gauges equal the number of sessions of users and of brokers at that moment, each message received under a memory pool contributes one latency, which spans from its receipt until it was passed on to its last recipient or dropped, and the running latency is the average over the last full period. "
     "The metrics endpoint serves exactly these, in Prometheus' text format, to any visitor at any time, and no visitor of it does any harm.",
     ["histories", "schedules", "inputs"],
     "every history of connections and messages of every size, every time at which metrics are read, every visitor of the endpoint",
     "No test reads a metric.",
     ["cdn-proto/src/connection/metrics.rs", "cdn-proto/src/metrics.rs", "cdn-broker/src/metrics.rs", PR, "cdn-proto/src/connection/limiter/mod.rs", CO],
     [("byte counters", PR), ("gauges changed with the connection maps", CO), ("latency observed when the allocation is given back", "cdn-proto/src/connection/limiter/mod.rs"), ("running latency", "cdn-proto/src/connection/metrics.rs"), ("endpoint", "cdn-proto/src/metrics.rs")],
     ["the metrics themselves, and the endpoint's pages"], (), SIM)

prop("P25", "A component starts as configured, or says that it cannot",
     "A broker or marshal with a configuration that cannot be honoured (a listening address that is taken or unusable, certificate files that cannot be read or parsed, a discovery service that cannot be reached, a metrics address that makes no sense) reports an error within bounded time, and leaves nothing behind: no registration in discovery, no address it keeps listening on. "
     "Otherwise it listens on exactly the bind addresses given, is known in discovery and to users and other brokers by exactly the advertised ones (with local_ip replaced), and its encrypted listeners present certificates issued by the certificate authority that was given.",
     ["configurations", "fault_sequences"],
     "every combination of workable and unworkable settings, of both components, over every transport and discovery client",
     "The tests start components only with configurations that work, and with bind addresses equal to the advertised ones.",
     ["cdn-broker/src/lib.rs", "cdn-marshal/src/lib.rs", "cdn-proto/src/crypto/tls.rs", EM, RE, "cdn-proto/src/connection/protocols/quic.rs", "cdn-proto/src/connection/protocols/tcp_tls.rs"],
     [("construction", "Broker::new, Marshal::new"), ("certificate from the given or the local authority", "cdn-proto/src/crypto/tls.rs"), ("identity from the advertised endpoints", "cdn-broker/src/lib.rs")],
     ["result of construction; who accepts connections where; discovery's content; certificates presented"], (), SIM)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
