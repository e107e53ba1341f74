"""What each check runs, and how it is described in the evidence file and the manifest."""

COMMON_ASSUMPTIONS = [
    "The components run over the harness's transport and discovery service, with an Ed25519 signature scheme, "
    "except where a check drives the real transports or discovery clients; the production BLS scheme "
    "(jf-signature) cannot be built in this sandbox.",
    "A finite set of executions was observed; nothing is claimed about executions that were not.",
]

VIRTUAL = ("runtime monitoring: the real broker/marshal/client run on a fault-injecting in-memory network in virtual "
           "time; an executable model decides over everything each scripted party received")

CHECKS = {
    "P01": dict(
        engines=[dict(bin="sim", quick=15, thorough=900)],
        level="exploration",
        technique=VIRTUAL,
        rule="Each run draws users, topic sets, connects/leaves/reconnects, and pipelined subscribe/unsubscribe/"
             "broadcast sequences per round, on a network with random latency and fragmentation. One evaluation is one "
             "(user, broadcast) pair judged for 'at most once', 'must have got it' or 'must not have got it'. Distinct: "
             "(user, message's valid topics, user's subscriptions, sender or not, obligation).",
        note="Held on the runs made: obligations follow from the order each user sent its own operations in; where "
             "concurrency between users leaves it open whether a subscription was in force, both outcomes are allowed.",
        must_observe=["deliveries", "disconnects", "reconnects_over_live_session"],
    ),
    "P02": dict(
        engines=[dict(bin="sim", quick=20, thorough=900)],
        level="exploration",
        technique=VIRTUAL,
        rule="One broker among scripted users with confusable keys and 0-3 scripted peer brokers that announce users and "
             "topics (also stale and repeated announcements), connect, leave and reconnect. One evaluation is one (party, "
             "message) pair: must have got it exactly once and unaltered, or must not have. Distinct: (kind of message, "
             "kind of sender, set of recipients, whether the recipient key was a near copy).",
        note="Held on the runs made: where a user is follows from the history of its own connections and of the "
             "announcements delivered to this broker, in the order in which they were delivered.",
        must_observe=["deliveries", "forwarded", "moves_away", "remote_leaves"],
    ),
    "P03": dict(
        engines=[dict(bin="sim", quick=20, thorough=900)],
        level="exploration",
        technique=VIRTUAL,
        rule="One broker among scripted users and 1-5 scripted peers with changing interests; every frame that any peer "
             "or user receives is matched to the message that caused it. One evaluation is one (party, message) pair. "
             "Distinct: (kind of message, kind of sender, set of recipients).",
        note="Held on the runs made: a peer's interest is what it last announced on its connection to the broker.",
        must_observe=["deliveries", "forwarded"],
    ),
    "P04": dict(
        engines=[dict(bin="sim", quick=25, thorough=900)],
        extra=['tsan'],
        level="exploration",
        technique=VIRTUAL,
        rule="Streams of direct and broadcast messages (0 bytes to several hundred KB) between scripted users over one or "
             "two brokers, the raw connection halves, and the real transports, with fragmentation, stalls, slow readers "
             "and cuts. One evaluation is one delivered message compared with the next one due in its sender's stream. "
             "Distinct: (path, size class, disturbance).",
        note="Held on the runs made: where a connection on the path was cut, a stream may end early (no gap followed by "
             "later messages); everything that arrives is still in order, whole and unique.",
        must_observe=["messages", "cuts", "stalls", "mesh_disturbed"],
    ),
    "P05": dict(
        engines=[dict(bin="sim", quick=40, thorough=900)],
        level="exploration",
        technique=VIRTUAL + " (here: whole deployments with real clients); and the real transports and discovery clients",
        rule="A marshal, 1-5 brokers and real clients; subscriptions, moves between brokers, broker crashes and broken "
             "broker links, then a synchronisation interval, then broadcasts and direct messages from every client. The "
             "same in real time with TLS user connections, TCP broker connections and the real embedded or Redis discovery "
             "client. One evaluation is one (client, message) pair. Distinct: (kind, number of brokers, recipients' "
             "placement).",
        note="Held on the runs made: obligations apply once the subscriptions and connections had an interval to spread.",
        must_observe=["deliveries", "client_moves", "broker_crashes", "mesh_links_broken", "probes"],
    ),
    "P14": dict(
        engines=[dict(bin="sim", quick=25, thorough=900)],
        extra=['tsan'],
        level="exploration",
        technique=VIRTUAL,
        rule="Connections that share a small memory pool receive frames of 0 bytes to more than the pool; messages are "
             "held, cloned and dropped, connections cut, frames left incomplete; a model of what is held decides. Whole "
             "brokers with small pools and stalled readers; bounded receive queues; the same on four OS threads. One "
             "evaluation is one comparison of the pool's use, or of progress, with the model.",
        note="Held on the runs made.",
        must_observe=["pools", "stalled_readers", "partial_frames", "oversized", "queues"],
    ),
    "P18": dict(
        engines=[dict(bin="sim", quick=25, thorough=900)],
        level="exploration",
        technique=VIRTUAL + "; the marshal and the broker that a real client talks to are scripted",
        rule="Scripted marshals and brokers that refuse, stall, garble, vanish or cut at every step of connecting and of "
             "a session, while calls are made, also by tasks held up at any await. One evaluation is one judged fact: reconnected within the bound, the "
             "subscriptions presented equal what the calls add up to, attempts spaced, call outcome matches its effect, "
             "a client reported as initialized can be used.",
        note="Held on the runs made.",
        must_observe=["reconnections", "late_errors", "sessions_broken", "initializations", "busy_breaks"],
    ),
    "P19": dict(
        engines=[dict(bin="sim", quick=25, thorough=900)],
        level="exploration",
        technique=VIRTUAL + "; the marshal and the broker that a real client talks to are scripted; and with several OS "
                            "threads in real time",
        rule="Close at every phase (connecting, authenticating, connected, reconnecting, with calls waiting) from several "
             "clones; afterwards every call must fail promptly and no connection may be attempted or kept; also with "
             "callers held up at any await. Repeated "
             "subscribe/unsubscribe must send nothing and lose nothing. One evaluation is one judged call or observation.",
        note="Held on the runs made.",
        must_observe=["closes", "closes_while_connected", "waiting_calls", "calls_without_effect", "busy_closes"],
    ),
    "P13": dict(
        engines=[dict(bin="sim", quick=40, thorough=900)],
        extra=['asan'],
        level="exploration",
        technique="runtime monitoring: the real connection code over simulated streams in virtual time, and the real "
                  "Memory, TCP, TLS and QUIC transports; self-describing messages are checked by the receiving end, a "
                  "counting allocator watches what a refused frame allocates",
        rule="Frames of all sizes, split, trickled, truncated, over-announced; soft closes with stalls, cuts and competing "
             "closes; every way an end can go away with operations pending; 1-6 concurrent connections per endpoint on "
             "each transport, with silent and garbage connections beside them; certificates of another authority. One "
             "evaluation is one judged message, operation result or bound. Distinct: (kind of ending, operation, result, "
             "queue bound, transport).",
        note="Held on the runs made. 'Bounded time' is 15 s for soft closes and sends, 20 s for real transports. Sizes go to "
             "400 KB (4 MB thorough); a frame at the 512 MB limit is only announced, not sent.",
        must_observe=["idle_seconds_quic", "idle_seconds_tls", "oversize", "truncated", "stalled_body", "soft_closes_ok", "soft_closes_failed", "pending_operations",
                      "connections_memory", "connections_tcp", "connections_tls", "connections_quic", "certificates"],
    ),
    "P08": dict(
        engines=[dict(bin="sim", quick=25, thorough=900)],
        level="exploration",
        technique=VIRTUAL,
        rule="A real marshal over a scripted discovery service that can fail or stall; requests good and bad in every field "
             "(keys, signatures, namespaces, timestamps to the second under a shifted clock, message kinds, half requests, "
             "silence), many at a time; the permit record of the service is compared with what the requests deserved. One "
             "evaluation is one request judged or one issued permit attributed. Distinct: (request kind, conditions, answer).",
        note="Held on the runs made. A byte-for-byte repetition of a request within its five seconds is a valid request.",
        must_observe=["permits", "refusals", "request: good", "request: ahead of time", "request: too old",
                      "request: key with trailing bytes", "request: signature for another purpose"],
    ),
    "P10": dict(
        engines=[dict(bin="sim", quick=25, thorough=900)],
        level="exploration",
        technique=VIRTUAL,
        rule="A real broker over a scripted discovery service; attempts with valid, used, expired, foreign and invented "
             "permits, with the wrong messages, half of them, or silence, while other users' sessions carry traffic that "
             "names the keys in question. One evaluation is one attempt's outcome, or one check that nothing was routed to "
             "or for it. Distinct: (attempt kind, conditions, outcome).",
        note="Held on the runs made.",
        must_observe=["admitted", "refused", "routed", "attempt: used permit", "attempt: permit for another broker",
                      "attempt: no subscription"],
    ),
    "P11": dict(
        engines=[dict(bin="sim", quick=25, thorough=900)],
        level="exploration",
        technique=VIRTUAL,
        rule="Scripted peers connect to a real broker, and a real broker connects to scripted peers, with good and bad proofs "
             "at either step (keys, namespaces, times, message kinds, silence); afterwards the peer's view of the traffic "
             "and the broker's view of the peer are compared with what the handshake deserved, while an accepted peer and "
             "users exchange messages. One evaluation is one handshake or one message judged. Distinct: (kinds, outcome).",
        note="Held on the runs made. A fresh proof relayed by a third party within five seconds cannot be told apart in this "
             "protocol and is not counted.",
        must_observe=["peers_accepted", "peers_refused", "broker_proofs", "attempt: too old", "attempt: ahead of time",
                      "second step: bad", "second step: silence"],
    ),
    "P06": dict(
        engines=[dict(bin="sim", quick=40, thorough=900)],
        level="exploration",
        technique=VIRTUAL + "; and with several OS threads in real time",
        rule="Users and a scripted peer broker open several connections under one key, one after the other or at once, while "
             "the older ones are made to end, stall, fail to send or deliver late subscriptions; probes then show which "
             "connection gets what. One evaluation is one (connection, probe) pair or one judged end of a connection. "
             "Distinct: (what the older connection did, when, what the newer one had subscribed to, outcome).",
        note="Held on the runs made.",
        must_observe=["sessions", "peer_connections", "probe_messages"],
    ),
    "P07": dict(
        engines=[dict(bin="sim", quick=45, thorough=900)],
        level="exploration",
        technique=VIRTUAL + "; and with several OS threads in real time",
        rule="Users arrive, are replaced and leave in every way (closed, cut, stalled, refused, kicked), with scripted peers "
             "taking down everything the broker announces and reports. One evaluation is one judged fact at a point where "
             "enough time has passed: what peers believe, what they are sent, the count reported to discovery, the gauges. "
             "Distinct: (number present, number gone, way of leaving).",
        note="Held on the runs made.",
        must_observe=["departures", "departures_before_arrival", "replaced", "quiet_points", "gauge_readings", "reports"],
    ),
    "P09": dict(
        engines=[dict(bin="sim", quick=40, thorough=900)],
        level="exploration",
        technique="runtime monitoring: the real discovery clients, on a SQLite file and against a scripted RESP server with "
                  "a clock of its own, run seeded histories that a model of permits judges; and race in parallel, where an "
                  "offline checker over the recorded outcomes counts the successes per permit",
        rule="Histories of issuing, redeeming (at the right and the wrong broker, before and after the expiry, again, with "
             "numbers never issued) and time passing, and parallel redemptions from several clients with lost replies. One "
             "evaluation is one judged outcome. Distinct: (back end, age class, right broker, used before, outcome).",
        note="Held on the runs made: where a reply was lost, the permit may or may not have been used up, but yields at "
             "most one success.",
        must_observe=["permits_issued", "permits_redeemed", "redemptions_tried", "racing_redemptions", "failed_calls"],
    ),
    "P12": dict(
        engines=[dict(bin="sim", quick=40, thorough=900)],
        extra=['asan', 'miri'],
        level="exploration",
        technique="runtime monitoring: the codec runs on generated and mutated inputs under a panic monitor, a per-input time "
                  "bound and an allocation meter, with an independent encoding as oracle; a real broker is sent the same",
        rule="Messages of all kinds with boundary sizes are encoded, decoded and compared, also on their way through two "
             "brokers; valid encodings and announcements are mutated (truncations, pointer and length fields, spliced "
             "segments, edits at the archive's root) and decoded, merged and applied. One evaluation is one judged input. "
             "Distinct: (kind, mutation, outcome, size class).",
        note="Held on the inputs made.",
        must_observe=["messages_encoded", "hostile_inputs_decoded", "hostile_inputs_refused", "announcements_read",
                      "announcements_refused", "forwarded_messages_compared", "peer_messages", "greatest_versions_announced"],
    ),
    "P16": dict(
        engines=[dict(bin="sim", quick=30, thorough=900)],
        level="exploration",
        technique=VIRTUAL + "; and the real discovery clients on SQLite and against a scripted RESP server",
        rule="Whitelists are set, replaced and made unreadable while users are connected and try to connect, and while "
             "lookups race the replacement. One evaluation is one lookup, admission or session judged against the list in "
             "force (for lookups during a replacement: the old or the new one). Distinct: (back end, list sizes, on old, on "
             "new, readable, outcome).",
        note="Held on the runs made; an empty list is not judged.",
        must_observe=["whitelist_lookups", "lookups_meanwhile", "admissions_tried", "put_out", "kept", "unreadable_checks",
                      "lookups_failed", "lookups_without_answer"],
    ),
    "P17": dict(
        engines=[dict(bin="sim", quick=30, thorough=900)],
        level="exploration",
        technique=VIRTUAL + "; and the real discovery clients on SQLite and against a scripted RESP server",
        rule="Histories of heartbeats with counts, permits issued, redeemed and expired, and registrations expiring, after "
             "each of which the broker named for a new user and the list of others are compared with a model; and real "
             "brokers and marshals whose registrations, counts and choices are read off discovery. One evaluation is one "
             "judged answer. Distinct: (back end, live brokers, loads, outcome).",
        note="Held on the runs made; where several brokers have the least load, each is accepted.",
        must_observe=["choices_checked", "choices_during_expiry", "heartbeats", "lists_checked", "registrations_checked",
                      "users_directed", "brokers_gone"],
    ),
    "P20": dict(
        engines=[dict(bin="conns", quick=20, thorough=900)],
        level="exploration",
        technique="runtime monitoring: 2 to 4 brokers' own state objects are driven through seeded histories, with the order "
                  "of deliveries, repeats, outages and restarts in the explorer's hands; all views are compared with the "
                  "history once everything is delivered, and each repetition must change nothing",
        rule="Histories of connects, moves, departures, subscription changes and announcements, each announcement encoded "
             "and decoded on its way, with full states on new links; and departures that cross connects elsewhere as far as versions tell "
             "them apart. One evaluation is one (user, broker) location, one "
             "(peer, topic) interest or one repetition judged. Distinct: (homes, locations known, last home and whether it "
             "is known to be last, number of brokers, connects).",
        note="Held on the histories made, apart from the known findings; departures are explored where they do not cross "
             "the same user's connects elsewhere, or where all knew beforehand where the user was (elsewhere, the known "
             "findings say what happens).",
        must_observe=["connects", "departures", "crossing_departures", "deliveries", "repeats", "outages", "restarts", "topic_changes"],
    ),
    "P22": dict(
        engines=[dict(bin="sim", quick=20, thorough=900)],
        level="exploration",
        technique=VIRTUAL + "; the hooks are the monitors' own and record every call",
        rule="Users and peers send messages of every kind to a broker whose two hooks keep per-connection state and return "
             "seeded verdicts (with edits, for processed messages). One evaluation is one hook call compared with the "
             "message due on that connection, or one message's fate compared with the verdict. Distinct: (side, kind, "
             "verdict, position).",
        note="Held on the runs made.",
        must_observe=["connections_with_hook", "messages", "verdict_process", "verdict_skip", "verdict_disconnect"],
    ),
    "P15": dict(
        engines=[dict(bin="sim", quick=30, thorough=900)],
        extra=['asan'],
        level="exploration",
        technique=VIRTUAL + "; and in real time on several threads, with messages that are expensive to process",
        rule="Offenders at every stage (dialling and saying nothing, half a handshake, floods, frames of any length, "
             "messages not allowed to them, stopping to read, peers that do the same, panics in their own connections' way) "
             "beside honest users whose every message is accounted for. One evaluation is one message due to an honest user, "
             "or one offence whose consequence is judged. On real TCP, TLS and QUIC, users and brokers that stop reading while "
             "more is sent to them than sockets and memory pool hold. Distinct: (offence, outcome, brokers, time class).",
        note="Held on the runs made; the delay a message that is expensive to process may cause is judged at 12 s.",
        must_observe=["offences", "offenders_back", "honest_deliveries", "newcomers", "heavy_messages", "unread_bytes"],
    ),
    "P21": dict(
        engines=[dict(bin="sim", quick=30, thorough=900)],
        level="exploration",
        technique=VIRTUAL + ", under faults of discovery, links, listeners and peers",
        rule="Meshes of real brokers start in any order, crash, come back under the same or another identity, lose links "
             "and discovery; after the last fault and the stated time, each pair must hold exactly one link and a probe from "
             "each must reach users of all. One evaluation is one pair, one probe delivery, or one period's calls judged. "
             "Distinct: (brokers, faults, who was unreachable, outcome).",
        note="Held on the runs made.",
        must_observe=["broker_starts", "crashes", "deliveries", "discovery_faults", "links_broken", "meshes_judged",
                      "minutes_of_discovery_calls", "served_meanwhile", "stalls", "unreachable", "attempts_at_bad_peers", "users"],
    ),
    "P23": dict(
        engines=[dict(bin="sim", quick=30, thorough=900)],
        level="exploration",
        technique="runtime monitoring: after cycles of connections of every kind and fate, the process's tasks, open links "
                  "(or file descriptors) and heap bytes (a counting allocator) are compared with those before",
        rule="Cycles of users, peers, marshal visitors and real clients that finish, vanish, stall or are dropped at every "
             "stage of a connection, on the simulated network in virtual time and on real TCP, TLS and QUIC sockets; visitors "
             "that keep their own end for ever (with an answer, a refusal, half a message or no handshake), registered "
             "brokers and hosts of clients that answer nothing and hang on: the component must end those itself. One "
             "evaluation is one comparison after a cycle. Distinct: (transport, what the cycle was made of, class of what "
             "is held).",
        note="Held on the runs made: memory is judged by its growth over several equal cycles.",
        must_observe=["sessions", "bytes_kept", "connections", "stayers", "silent_calls", "held_hosts", "abandoned"],
    ),
    "P24": dict(
        engines=[dict(bin="sim", quick=30, thorough=900)],
        level="exploration",
        technique=VIRTUAL + "; the metrics read from the process (and over HTTP) are compared with what the parties counted",
        rule="Traffic of known size in both directions, partial frames, connections of users and brokers that come, are "
             "replaced and go, messages held for known times, running averages over several periods, and visitors of the "
             "metrics endpoint (proper, malformed, many, slow). One evaluation is one metric compared with what the "
             "scripted parties did. Distinct: (metric, situation).",
        note="Held on the runs made.",
        must_observe=["readings", "messages", "partial_frames", "bytes_received", "bytes_sent", "periods",
                      "timed_messages", "comparisons", "pages", "odd_visitors"],
    ),
    "P25": dict(
        engines=[dict(bin="sim", quick=20, thorough=900)],
        level="exploration",
        technique=VIRTUAL + "; and with the real transports, certificates and discovery clients",
        rule="Brokers and marshals are given configurations that work and configurations with one or more things that "
             "cannot work (addresses taken or unusable, certificates missing or broken, discovery unreachable). One "
             "evaluation is one component judged: error in time and nothing left, or listening where it was told to and "
             "known as it was told to be. Distinct: (what was wrong, component, outcome).",
        note="Held on the runs made.",
        must_observe=["broken_configurations", "starts", "identities", "certificates"],
    ),
}
