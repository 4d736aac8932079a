#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table.  Run after adding a property or a check."""
import json, os, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "interoperability/mqtt/"
B5, B3 = I + "brokers/V5/", I + "brokers/V311/"
F5, F3, FS = I + "formats/MQTTV5/MQTTV5.py", I + "formats/MQTTV311/MQTTV311.py", I + "formats/MQTTSN/MQTTSN.py"
TCP, HTTP, UDP, START = [I + "brokers/" + x for x in ("listeners/TCPListeners.py", "listeners/HTTPListeners.py",
                                                     "listeners/UDPListeners.py", "start.py")]
MB5, MB3 = B5 + "MQTTBrokers.py", B3 + "MQTTBrokers.py"
BR5, BR3 = B5 + "Brokers.py", B3 + "Brokers.py"
SE5, SE3 = B5 + "SubscriptionEngines.py", B3 + "SubscriptionEngines.py"
C5, C3 = I + "clients/V5/", I + "clients/V311/"
MBT = "interoperability/mbt/main.py"
ONLINE = "trace monitor: an online specification of the broker over recorded wire traces of the real broker"

# id, title, statement, over, quantifier text, why tests cannot, files, [(mechanism, where)], technique, level note
P = []


def p(id, title, statement, over, text, why, files, mech, tech, note):
    P.append((id, title, statement, over.split(), text, why, files, mech, tech, note))


p("C01", "MQTT 5 packets survive encoding and decoding, byte for byte",
  "Every valid MQTT 5 control packet encodes to exactly the bytes the MQTT 5 standard prescribes, decoding these bytes yields an equal packet with the same field values, and encoding that again yields the same bytes. Two packets that differ in a field compare unequal.",
  "inputs", "all 15 packet types, all flags, all property combinations and lengths, all strings including multi-byte ones, all legal reason codes",
  "the unit tests try a few packets of each type against the encoder itself; encoder and decoder may be wrong in the same way",
  [F5], [("pack/unpack of each packet class", F5), ("VariableByteIntegers, Properties", F5)],
  "runtime monitor: generated packets through the real codec, differential oracle is an independent strict codec",
  "tens of thousands of generated packets per run; the independent codec in mon/wire.py is trusted")
p("C02", "MQTT 3.1.1 packets survive encoding and decoding, byte for byte",
  "Every valid MQTT 3.1.1 control packet encodes to exactly the bytes the 3.1.1 standard prescribes, decoding these bytes yields an equal packet with the same field values, and encoding that again yields the same bytes.",
  "inputs", "all 14 packet types, all flags and field values, payload and string lengths over the whole range of remaining lengths",
  "the unit tests try a few packets of each type against the encoder itself", [F3],
  [("pack/unpack of each packet class", F3)],
  "runtime monitor: generated packets through the real codec, differential oracle is an independent strict codec",
  "tens of thousands of generated packets per run; the independent codec in mon/wire.py is trusted")
p("C03", "Malformed packets are rejected cleanly",
  "For any byte string the MQTT 5 and 3.1.1 decoders either return a packet or reject it with a well-defined error, never fail in an uncontrolled way and never read beyond the packet. Malformed packets (wrong reserved bits, truncated or overlong fields, duplicate or misplaced properties, invalid identifiers, codes or text) are rejected, and a broker that receives one closes that connection.",
  "inputs", "all byte strings near valid packets: mutations, truncations, extensions, wrong lengths and flags, and random bytes, at decoder level and against a live broker",
  "tests feed only well-formed packets apart from a handful of hand-written errors", [F5, F3, TCP, MB5, MB3],
  [("unpackPacket and unpack", F5), ("unpackPacket and unpack", F3), ("handleRequest", MB5)],
  "runtime monitor: mutation fuzzing of the real decoders and live broker against an independent strict validator",
  "rejection is required only where the standard says malformed and the independent validator agrees")
p("C04", "Topic filters match exactly what the standard says",
  "A subscription receives a message exactly if its topic filter matches the topic under the MQTT wildcard rules, including empty levels, the parent match of '#', the '$' exclusion and case sensitivity. Invalid topic filters are refused and invalid topic names in publications are not routed to anyone.",
  "inputs", "all pairs of topic filters and topic names over a small alphabet of levels, enumerated in bulk through live subscriptions in both protocol versions, plus random longer ones",
  "the unit tests list some dozens of filter/topic pairs and call the matcher directly",
  [B5 + "Topics.py", B3 + "Topics.py", SE5, SE3], [("topicMatches, isValidTopicName", B5 + "Topics.py"), ("subscriptions of a topic", SE5)],
  "runtime monitor: bulk filter/topic matrix against the live broker and its matcher, oracle is an independent matcher",
  "exhaustive over the small alphabet up to the stated depth, random beyond")
p("C05", "Every matching subscriber gets each message once, and nobody else gets it",
  "With default options, each accepted publication is delivered to every client with a matching subscription exactly once, at the lower of the publication's QoS and the highest QoS the client's matching subscriptions were granted, with topic and payload unchanged; clients without a matching subscription get nothing. Subscriptions and unsubscriptions take effect from their acknowledgement on, and acknowledgements answer each requested filter in order.",
  "histories inputs", "random histories of subscribing, unsubscribing, publishing, reconnecting and disconnecting by several clients of both protocol versions",
  "the client tests run fixed scenarios with two clients and few topics",
  [BR5, BR3, SE5, SE3, MB5, MB3], [("publish", BR5), ("getSubscriptions, optionsOf", SE5), ("publish", BR3)],
  ONLINE, "hundreds of random histories per run; slow consumers (full socket buffers) are out of scope")
p("C06", "Inbound QoS 2 is routed exactly once, and every publication is acknowledged",
  "A QoS 2 publication is routed exactly once however often PUBLISH and PUBREL are repeated, also across reconnections of the session, and PUBREC and PUBCOMP answer every PUBLISH and PUBREL with the same packet identifier. A QoS 1 publication is answered by exactly one PUBACK with its identifier, and a released identifier can be used again for a new message.",
  "histories fault_sequences", "random interleavings of open QoS 2 exchanges, duplicates, connection losses between any two steps, session resumption, identifier reuse; routing at PUBLISH or at PUBREL",
  "the client tests complete every exchange promptly", [MB5, MB3],
  [("inbound packet identifiers", MB5 + " publish, pubrel"), ("inbound packet identifiers", MB3 + " publish, pubrel")],
  ONLINE, "connection losses at every step of the exchange in directed scenarios, random histories besides")
p("C07", "Outbound QoS 1 and 2 messages survive reconnections, exactly once",
  "A QoS 1 or 2 message for a session that outlives its connection is kept until the receiver has acknowledged it: on reconnection unacknowledged messages are sent again with their packet identifier and DUP set, queued ones follow. After PUBREC a QoS 2 message is never sent again, only its PUBREL is; DUP is not set on a first transmission; a completed message is never repeated.",
  "histories fault_sequences", "connection losses after any prefix of the acknowledgement exchange, several times over, several messages under way, both protocol versions",
  "the client tests lose the connection at one point with one message", [MB5, MB3],
  [("outbound, queued", MB5 + " MQTTClients"), ("outbound", MB3 + " MQTTClients")],
  ONLINE, "every loss point of the exchange in directed scenarios, random histories besides")
p("C08", "Packet identifiers under way are unique",
  "The broker never uses zero, and never gives a new outbound QoS 1 or 2 message the packet identifier of one still unacknowledged in that session, also after the identifiers wrapped around at 65535. Identifiers of client and broker are independent of each other.",
  "histories", "histories of tens of thousands of messages with some left unacknowledged across the wrap, and reconnections between",
  "no test sends 65535 messages", [MB5, MB3], [("identifier allocation", MB5 + " sendFirst"), ("identifier allocation", MB3)],
  ONLINE, "the wrap is crossed for real by sending more than 65535 messages")
p("C09", "Messages of one publisher keep their order",
  "Messages that one client publishes to one topic with the same QoS arrive at each subscriber in the order they were published, whether delivered at once, delayed by flow control, queued while the subscriber was away, or sent again. The order of unacknowledged messages is kept when they are sent again.",
  "schedules histories", "several publishers and subscribers, bursts, slow acknowledgement, reconnections with queued messages, concurrent publishers on real sockets",
  "the client tests send few messages and check order in one scenario", [MB5, MB3],
  [("outbound, queued, sendQueued, resend", MB5), ("publishArrived", MB3)],
  ONLINE, "order is checked per publisher, topic and QoS for ordinary (not shared) subscriptions")
p("C10", "Outbound flow control: never above the receive maximum, never stuck below it",
  "The broker never has more unacknowledged QoS 1 and 2 publications outstanding to an MQTT 5 client than the client's receive maximum (65535 when absent). Messages held back are sent as soon as acknowledgements make room, in order and none twice, and also after reconnecting with a different receive maximum.",
  "histories", "receive maxima from 1 upwards, bursts larger than the window, any order of acknowledgements, negative PUBREC, reconnections with a changed window, expiring messages",
  "one test with one receive maximum and prompt acknowledgements", [MB5], [("outbound, queued, sendQueued", MB5)],
  ONLINE, "window checked at every event, progress whenever the system is quiet")
p("C11", "Inbound receive maximum is enforced",
  "An MQTT 5 client that has more QoS 1 and 2 publications unacknowledged towards the broker than the receive maximum the broker announced is disconnected with reason 'receive maximum exceeded'; a client that stays within it, whatever the order of completion, is never disconnected for this reason. The configured receive maximum is the one announced and enforced.",
  "histories configurations", "different configured receive maxima, open QoS 2 exchanges with duplicates, completed and renewed, across reconnections",
  "one test exceeds the default maximum once", [MB5, START], [("inbound window", MB5 + " publish"), ("connack properties", MB5 + " connect")],
  ONLINE, "window sizes 1 to 8")
p("C12", "Sessions live exactly as long as they should",
  "A session's subscriptions and unacknowledged messages survive a lost or closed connection until its session expiry interval has passed (3.1.1: until a clean session), a DISCONNECT may change that interval, and a clean start discards them. CONNACK reports whether a session was present correctly, and a discarded session never has an effect again.",
  "histories", "random sequences of connections with and without clean start, expiry intervals, disconnect styles, times between them, both protocol versions",
  "the client tests try a couple of expiry values", [MB5, BR5, MB3, BR3],
  [("connect, disconnect", MB5), ("cleanSession, expireSessions", BR5), ("connect", MB3)],
  ONLINE, "virtual time, so that long intervals are exercised; instants within 2.2 s of a deadline are left open")
p("C13", "Wills are published when they should be, and only then",
  "The will of a client is published exactly once, with its own topic, payload, QoS, retain flag and properties, when the connection ends other than by a normal DISCONNECT; an MQTT 5 will with a delay is published after the delay or at the end of the session, whichever is first, and not at all if the session is resumed before. A normal DISCONNECT discards it.",
  "histories fault_sequences", "all ways a connection can end (closing, loss, keep alive, takeover, protocol error, DISCONNECT with and without will), delays, session expiry, reconnection before and after",
  "the client tests end the connection in one or two ways", [MB5, BR5, MB3, BR3],
  [("disconnect, connectionLost, keepalive", MB5), ("setupWillMessage, sendWillMessage", BR5)],
  ONLINE, "virtual time; instants within 2.2 s of a deadline are left open")
p("C14", "Retained messages: the latest one, exactly when it is due",
  "A new subscription gets, for every matching topic, exactly the last retained message published there (none if it was cleared by an empty payload or has expired), with the retain flag set and at the lower of message QoS and granted QoS. Established subscriptions receive the publication itself as an ordinary message, and retained messages survive the session that published them.",
  "histories", "random sequences of retained publications, clears, wills with retain, subscriptions with wildcards and repeated subscriptions, both protocol versions and across them",
  "the client tests check three topics once", [BR5, BR3, SE5, SE3], [("__doRetained__", BR5), ("setRetained, retained", SE5)],
  ONLINE, "random histories with many retained topics")
p("C15", "Subscription options are honoured",
  "No-local keeps a client's own publications from it, retain-as-published decides whether the retain flag is forwarded, and retain handling decides whether retained messages are sent on subscribing. Subscribing again to the same filter replaces the options from then on and does not duplicate deliveries.",
  "inputs histories", "all combinations of QoS, no-local, retain-as-published and retain handling, overlapping filters, re-subscriptions, after reconnection",
  "the client tests take a few combinations", [BR5, SE5, MB5], [("publish, __doRetained__", BR5), ("subscribe", SE5)],
  ONLINE, "a client's overlapping subscriptions agree in no-local in generated histories")
p("C16", "Subscription identifiers are those of the matching subscriptions",
  "A message delivered to an MQTT 5 client carries the subscription identifiers of exactly those of that client's subscriptions that match its topic, and no identifiers of other clients or of former subscriptions; messages for subscriptions without identifier carry none. This holds for retained messages, queued messages and single or multiple delivery of overlapping subscriptions.",
  "histories configurations", "random overlapping subscriptions with and without identifiers, replaced identifiers, single and multiple delivery",
  "one test with two identifiers", [BR5, SE5], [("publishAction, optionsOf", BR5)], ONLINE, "random histories")
p("C17", "A shared subscription delivers each message to one member of the group",
  "Each message matching a shared subscription goes to exactly one connected or persistent member of each group, at that member's QoS, independently of other groups and of ordinary subscriptions; a member that left no longer takes messages. Shared subscriptions get no retained messages on subscribing, and invalid share names are refused.",
  "histories schedules", "several groups, overlapping ordinary subscriptions, members joining, leaving, dropping and expiring",
  "one test with two members", [BR5, SE5, B5 + "Topics.py"], [("shared subscriptions", BR5 + " publish")], ONLINE,
  "which member is chosen is left to the broker")
p("C18", "Topic aliases mean the right topic, in both directions",
  "A publication with a topic alias is routed to the topic last bound to that alias on the same connection, bindings end with the connection, and an alias of zero, above the announced maximum or unbound disconnects the client. The broker uses aliases towards a client only up to that client's topic alias maximum, and every alias it uses has been bound on that connection to the topic of the message.",
  "histories configurations", "alias maxima from 0 upwards in both directions, rebinding, reconnection, queued and resent messages, more topics than aliases",
  "tests use one or two aliases in order", [MB5, BR5], [("getAliasTopic", BR5), ("alias at send time", MB5 + " sendFirst, resendPub")], ONLINE,
  "alias maxima 0 to 8")
p("C19", "Message expiry is honoured",
  "A message with an expiry interval is not delivered after that interval has passed, neither from a queue nor as a retained message, and is delivered before; when forwarded it carries the interval less the time it waited in the broker. Messages without an interval do not expire.",
  "histories", "expiry intervals, waiting times before and after them, in queues of absent sessions, behind a full window, and in the retained store",
  "one test with two intervals in real time", [MB5, BR5], [("expiry on sending", MB5 + " sendFirst"), ("retained expiry", BR5)], ONLINE,
  "virtual time; deviations of one second are accepted; messages already sent once may or may not be dropped")
p("C20", "Maximum packet sizes are respected",
  "The broker never sends an MQTT 5 client a packet larger than the maximum packet size the client announced: such a publication is discarded for that client only, without disturbing later messages or flow control. A client that sends a packet larger than the broker's announced maximum is disconnected with 'packet too large'; one of exactly the maximum size is accepted.",
  "inputs histories configurations", "packet sizes at and around the limits, limits of different clients, with aliases and properties, in queues and when sent again",
  "one test in each direction with one size", [MB5], [("respond, sendFirst", MB5), ("packet size check", MB5 + " handleRequest")], ONLINE,
  "sizes one below, at and one above each limit")
p("C21", "Request/response properties make round trips",
  "A responder that answers a request on the response topic with the correlation data it received reaches exactly the requester with its own correlation data, however many requesters and responders interleave. The response topic and correlation data are passed on unaltered.",
  "schedules inputs", "several requesters and responders over random topics and correlation data, interleaved and queued",
  "one test with one request", [BR5, MB5], [("forwardedProperties", BR5)], "trace monitor: conservation of requests and responses over the live broker",
  "matching of correlation data is checked by the workload's own ledger")
p("C22", "A misbehaving client harms nobody else",
  "A client that violates the protocol in any way (bytes, packets, order, values) loses at most its own connection, with the reason the standard prescribes where it prescribes one, and the broker goes on serving: other clients' deliveries, sessions and subscriptions are unaffected. New clients can always connect.",
  "inputs fault_sequences", "raw garbage, every packet type at the wrong time, illegal values in each packet, unfinished packets, sudden resets, unfinished TLS and WebSocket handshakes, beside a running workload of innocent clients",
  "tests send two or three protocol violations, one at a time", [TCP, MB5, MB3, BR5], [("handle, getPacket", TCP), ("handleRequest, handlePacket", MB5)],
  ONLINE + ", with hostile clients beside it", "the offender's own fate is checked where the standard prescribes it")
p("C23", "One connection per client identifier",
  "When a client connects with the client identifier of a connected client, the older connection is closed (an MQTT 5 one with reason 'session taken over'), its will handled, and the session continues on the newer connection if it did not ask for a clean one. Empty client identifiers get unique assigned ones, reported to MQTT 5 clients; 3.1.1 ones are refused unless they ask for a clean session.",
  "histories schedules", "takeovers at any moment of a history, repeated and simultaneous, with messages under way, both protocol versions",
  "one test of one takeover", [MB5, MB3, BR5], [("connect", MB5), ("connect", MB3)], ONLINE, "simultaneous takeovers on real sockets and threads are included")
p("C24", "Keep alive is enforced fairly",
  "A client silent for more than one and a half times its keep alive interval is disconnected and its will handled; a client that sends any packet in time, or whose keep alive is zero, is never disconnected for silence. The interval the broker assigns in CONNACK is the one that counts.",
  "histories configurations", "keep alive values including zero, silence shorter and longer than the limit, any packet as sign of life, assigned intervals",
  "one test with one interval in real time", [MB5, MB3], [("keepalive", MB5), ("cleanup thread", MB5 + " cleanupThreads")], ONLINE, "virtual time")
p("C25", "The transport makes no difference",
  "However the byte stream is cut into TCP segments, WebSocket frames or TLS records, and however packets are batched, the broker behaves the same, and what it sends over each transport is the same MQTT stream. WebSocket handshakes, masking, fragmentation, ping and close frames follow RFC 6455.",
  "inputs schedules configurations", "random segmentations down to single bytes, many packets in one segment, WebSocket framings with control frames between fragments, TLS with records that do not align with packets",
  "tests send one whole packet at a time over plain TCP", [TCP], [("BufferedSockets, WebSockets", TCP), ("handle", TCP)],
  "differential trace monitor: the same history over different transports and segmentations of the live broker",
  "slow transmission within a packet is scaled down to fractions of a second")
p("C26", "Concurrent clients cannot corrupt the broker",
  "With many clients acting at the same time from different connections, no message is lost, duplicated, altered or reordered, every packet on the wire is well-formed, no request stays unanswered and no broker thread dies. The state that remains is that of some sequential order of the requests.",
  "schedules", "parallel publishers, subscribers, reconnecting and vanishing clients in both protocol versions on real threads with randomised thread switch intervals and injected delays",
  "tests are sequential: one thread acting at a time", [TCP, MB5, MB3], [("the shared lock", START), ("cleanup thread", MB5)],
  "concurrency stress with injected yields; offline checker over the recorded event log (conservation, order, uniqueness) and a hook on unhandled thread exceptions",
  "a finite number of schedules per run, counted in the evidence")
p("C27", "Properties and versions are bridged faithfully",
  "A message published by an MQTT 5 client reaches MQTT 5 subscribers with payload format, content type, response topic, correlation data and all user properties in order and unaltered, each subscriber's copy independent of the others'; connection-specific properties are not passed on. MQTT 3.1.1 and MQTT 5 clients exchange messages with each other in both directions with the same delivery guarantees: the options, identifiers and groups of MQTT 5 subscriptions, and the expiry of MQTT 5 messages, count whatever the version of the other side.",
  "inputs histories", "all subsets of properties, several subscribers with different aliases, limits and identifiers, retained and queued messages, wills, mixed versions",
  "tests check some properties with one subscriber and no mixed versions", [BR5, BR3, MB5, MB3], [("forwardedProperties", BR5), ("broker3, broker5", BR3)], ONLINE,
  "random histories with rich properties and both versions")
p("C28", "The MQTT 5 client library delivers exactly what it should",
  "The MQTT 5 client library calls back once for each QoS 1 or 2 message it acknowledges (QoS 2: exactly once, whatever the sender repeats), with topic, payload, QoS, retain flag, identifier and properties as sent, and answers each packet with the acknowledgement the standard prescribes. It sends what the caller asked for, completes publish handshakes, and matches returned acknowledgements to requests.",
  "inputs histories", "random sequences of server packets including repeats, segmentations and interleavings with the client's own requests, played by a scripted server",
  "the client is only used against the broker in fixed scenarios", [C5 + "main.py", C5 + "internal.py"], [("Receivers.receive", C5 + "internal.py"), ("Client", C5 + "main.py")],
  "trace monitor on a scripted server: callbacks and wire packets of the real client library against a specification", "the server side is scripted by the harness")
p("C29", "The MQTT 3.1.1 client library delivers exactly what it should",
  "The MQTT 3.1.1 client library calls back once for each QoS 1 or 2 message it acknowledges (QoS 2: exactly once, whatever the sender repeats), with topic, payload, QoS, retain flag and identifier as sent, and answers each packet with the acknowledgement the standard prescribes. It sends what the caller asked for, completes publish handshakes, and matches returned acknowledgements to requests.",
  "inputs histories", "random sequences of server packets including repeats, segmentations and interleavings with the client's own requests, played by a scripted server",
  "the client is only used against the broker in fixed scenarios", [C3 + "main.py", C3 + "internal.py"], [("Receivers.receive", C3 + "internal.py"), ("Client", C3 + "main.py")],
  "trace monitor on a scripted server: callbacks and wire packets of the real client library against a specification", "the server side is scripted by the harness")
p("C30", "Model exploration takes only enabled actions and covers what it can reach",
  "The model-based tester, exploring a model, calls an action only when every parameter has a value available and its result has room, with values taken from the declared choices or returned by earlier calls, and records exactly the calls, results and events it saw. Choices marked as finished with are not used again on that path. Each distinct path of a finite deterministic model is taken exactly once before the tester says that nothing is left.",
  "programs", "random small models with typed parameters, choice sets, observed events and results that feed later calls",
  "the tester has no test", [MBT], [("Executions.step, getEnabledActions, removeFinisheds", MBT), ("Traces.findNextPath", MBT)],
  "runtime monitor: instrumented random models under the real explorer; recorded calls checked against the declared model", "models are generated; each action logs its call")
p("C31", "Playback repeats a recorded test and tells every difference",
  "Replaying a recorded test makes the recorded calls in order with the recorded arguments, with the results of earlier calls substituted where they were used, and reports success exactly if the recorded results and observed events come again. A differing result, a missing event, or an exception that was not recorded is reported as a failure.",
  "programs fault_sequences", "random recordings by the explorer of random models, replayed against the same and against deviating implementations",
  "the playback has no test", [MBT], [("Tests.handleCall, handleResult, handleObserved", MBT), ("Tests.replaceResults", MBT)],
  "runtime monitor: differential replay of recorded tests against conforming and mutated implementations", "deviations are injected one at a time")
p("C32", "The proxies pass traffic on unaltered",
  "Each byte a client sends through a test proxy reaches the server in order and unaltered, each byte the server sends reaches the client likewise, for any number of clients at the same time, and the end of one side's connection ends the other's. The packet log of the proxy shows the packets in order.",
  "inputs schedules", "random packet streams in both directions, cut at random, with several clients at the same time and connections ending at any point",
  "the proxies have no test", [I + "proxy/mqttsas.py", I + "restart/netproxy.py"], [("handle", I + "proxy/mqttsas.py")],
  "runtime monitor: byte-exact comparison of both sides of the live proxy", "well-formed MQTT traffic; several concurrent clients")
p("C33", "MQTT-SN packets survive encoding and decoding",
  "Every valid MQTT-SN packet encodes to the bytes the MQTT-SN 1.2 standard prescribes for it, and decoding these bytes yields an equal packet with the same field values. Any other datagram is rejected without harm.",
  "inputs", "all packet types of the codec with all flags and random field values; mutated datagrams", "the unit test covers one example per packet type", [FS],
  [("pack/unpack", FS)], "runtime monitor: generated packets through the real codec against an independent encoder", "fields limited to what the codec supports")
p("C34", "The MQTT-SN gateway routes to and from MQTT clients",
  "A publication sent by an MQTT-SN client with a short topic name reaches the MQTT subscribers of that topic exactly once with payload and retain flag intact, and a connect request is answered. Datagrams that are malformed or not supported are ignored without affecting other clients or later datagrams.",
  "inputs histories", "random sequences of SN packets and malformed datagrams from several ports, with MQTT subscribers of both versions watching", "the gateway has no test",
  [UDP, I + "brokers/SN/MQTTSNBrokers.py", I + "brokers/SN/Brokers.py"], [("handleRequest", I + "brokers/SN/MQTTSNBrokers.py")],
  "trace monitor: datagrams in, MQTT deliveries out, against a ledger", "limited to CONNECT and PUBLISH with short topic names, the packets the gateway supports")
p("C35", "The HTTP interface reports the broker's real state",
  "What the HTTP interface reports about clients, subscriptions and retained messages agrees with what clients did, and requests it does not know are answered with an error status. No HTTP request, however malformed, disturbs MQTT clients or later requests.",
  "inputs histories", "random histories of MQTT clients with HTTP queries between, malformed and unknown requests", "the interface has no test", [HTTP], [("do_GET", HTTP)],
  "trace monitor: HTTP answers against the specification's state", "limited to the resources the interface offers")
p("C36", "What is persisted is there again after a restart",
  "With persistence on, a broker that was shut down in an orderly way and started again has the retained messages and the subscriptions of persistent sessions it had before and no others, and tells a client that comes back that its session is present exactly if it has subscriptions of it. Without persistence it starts empty, and neither a shutdown nor a kill at any point breaks the service of clients that connect after a restart.",
  "crash_points histories configurations", "random retained histories, orderly shutdowns and kills at random points, several restarts in a row", "no test restarts a broker",
  [START, BR5, BR3, SE5], [("persistence", START)], "runtime monitor: real broker processes restarted over the same data directory, state compared by subscribing",
  "data is committed at orderly shutdown only, a kill may lose changes; ZODB is not installed here, a stand-in with its interface (mon/zodb) stores the data")
p("C37", "The configuration file means what it says",
  "Every setting the configuration file may have takes effect (listener ports, addresses and protocols, limits and server keep alive announced to clients, TLS settings, persistence), and so does the command line option for the port; comments and blank lines are ignored. Settings of one listener do not leak into another, and lines that are not understood do not change other settings.",
  "configurations", "random combinations and orders of settings, comments, spacing", "the tests use one configuration", [START], [("process_config", START)],
  "runtime monitor: live brokers started from generated configurations, observed through connections", "the settings of the sample configurations and of process_config; four of them have no effect (known findings)")
p("C38", "Reinitialising clears everything",
  "After the broker has been reinitialised no session, subscription, retained message, will or queued message from before has any effect, and it serves clients like a fresh one.",
  "histories", "random histories before, then reinitialisation, then a history judged against a fresh specification", "no test looks at what is left over", [MB5, BR5, MB3, BR3, SE5, SE3],
  [("reinitialize", MB5), ("reinitialize", MB3)], ONLINE, "clients are disconnected at reinitialisation")
p("C39", "Restart control keeps its test clients in step",
  "The restart test controller begins with the clients which have answered that they are ready, once the configured number of different ones has, or else tells them after two minutes to restart. Each phase of an iteration begins as soon as all of them have said that they wait for it, and otherwise after a minute; where so configured the proxy is told exactly once, between the start and the end of a test, to break the connections. After the configured number of iterations or duration, not before and not later, the clients are told to stop.",
  "histories fault_sequences configurations", "random numbers of clients which answer once or repeatedly, late or never, work for long, die in some phase, or are strangers; all command line options of the controller", "no test", [I + "restart/control.py"],
  [("wait_for_client_test_programs, wait_for, one_iteration, run", I + "restart/control.py")],
  "runtime monitor: the real program in virtual time with a stand-in for the MQTT library, offline checker over the log of its messages", "the stand-in delivers messages with random delays below 0.3 s; clients repeat what they wait for")
p("C40", "The coverage report counts what was exercised",
  "The requirement coverage filter passes every ordinary log record, and the first record of each requirement statement, unaltered, and records each requirement statement exactly when its log record is produced. Its summary lists exactly those exercised and, of the known ones, those not exercised.",
  "histories", "random sequences of log records with and without requirement tags, known and unknown ones, while brokers run", "no test", [I + "brokers/coverage.py"], [("filter", I + "brokers/coverage.py")],
  "runtime monitor: log records fed and recorded around the real filter", "-")
p("C41", "The broker shuts down in an orderly way",
  "When the broker is told to stop, connected MQTT 5 clients get exactly one DISCONNECT, with reason 'server shutting down', as their last packet, every connection and listener is closed, the process ends with success and in bounded time whatever the clients are doing, and the same ports can be served again at once.",
  "schedules crash_points", "shutdown at random points of a running workload, idle and stalled clients, several listeners, repeated start and stop in one process and as a process ended by a signal", "tests kill the broker process",
  [START, TCP, MB5], [("shutdown", START), ("disconnectAll", MB5)], "runtime monitor: real broker processes and in-process brokers stopped under load, clients record what they see", "bounded time is taken as 20 s")
p("C42", "The activity feed reports packets truthfully",
  "In visual mode a client subscribed to the activity topic is told of each packet that other MQTT 5 clients exchange with the broker, with the client and the packet's details as on the wire, and the feed never reports itself. Everything else behaves as without visual mode.",
  "histories configurations", "random histories with a watcher connected, both protocol versions", "no test", [MB5, MB3, START], [("visual reports", MB5 + " respond")],
  "trace monitor: reports compared with the packets seen on the wire", "JSON reports, compared field by field with the packets on the wire; packets of 3.1.1 clients are not reported")
p("C43", "Errors a client asks the broker for are produced as documented",
  "A MQTT 5 client which publishes a reason code to cmd/disconnectWithRC is told a DISCONNECT with exactly that code and the documented properties and is disconnected without its will; publications to the error topics are refused in PUBACK, PUBREC or PUBCOMP as documented, with the user properties of the refused packet, and the exchange is over then. test/nosubscribe is refused and makes no subscription, the topics with a maximum QoS are granted at most that, in both versions. Nothing else of the session and of other clients is affected.",
  "inputs histories", "random histories of both versions in which clients ask for errors at any time, several at once, by topic name or alias, with publications forwarded at PUBLISH or PUBREL", "the tests ask for each error once or not at all", [MB5, MB3],
  [("handleBehaviourPublish, publish, pubrel, subscribe", MB5)], ONLINE, "whether a refused publication reaches subscribers is taken as implemented")

NOT = {}


def main():
    have = {os.path.basename(f)[:3].upper() for f in glob.glob(HERE + "/checks/c*.py")}
    with open(HERE + "/properties.jsonl", "w") as f:
        for id, title, st, over, text, why, files, mech, tech, note in P:
            assert len(title) <= 80, title
            f.write(json.dumps({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                                "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                                            "observe_at": ["the network connections of the running system" if tech == ONLINE else tech], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for id, title, st, over, text, why, files, mech, tech, note in P:
        if id in have and id not in NOT:
            checks.append({"property": id, "quick_cmd": "python3 run.py %s --tier quick" % id, "thorough_cmd": "python3 run.py %s --tier thorough" % id,
                           "technique": tech, "level": "exploration", "level_note": note})
        else:
            na.append({"property": id, "reason": NOT.get(id, "no check built yet")})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: monitors observe the wire, callbacks, log records and thread exceptions of the real code, which runs unmodified on a virtual clock. See DESIGN.md."}
    with open(HERE + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
