#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (source of the property texts).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

# ---------------------------------------------------------------- transport
p("T01","Concurrent senders never interleave frames on a connection",
  "However many goroutines send on one connection at the same time (one-way messages, requests, heartbeats, lease pings), the bytes of each frame reach the stream contiguous and complete before any byte of another frame. A frame is handed to the stream in one write, or all its writes happen inside one uninterrupted critical section of that connection.",
  ["schedules"],"every interleaving of any number of concurrent senders on one connection",
  "The suite sends from one goroutine at a time; an interleaved frame needs two senders to meet between the header and the body write.",
  ["transport/frame.go","transport/message.go","transport/conn.go","lease/frame.go","lease/agent.go"],
  [("frame writer emits header and payload","transport/frame.go writeFrame"),("lease frame writer","lease/frame.go writeDataWithFrame"),("send path","transport/conn.go SendOneWay")])
p("T02","A reply is delivered to exactly the request it answers",
  "A reply is handed to the one pending request whose message id it names in its relates-to field, at most once and to nobody else; a message that answers no pending request is passed to the message callback, and a message that does answer one is not. A request is registered before it is sent, so that a fast reply cannot be missed, and it is unregistered however the request ends.",
  ["schedules","histories"],"all orders of concurrent requests, replies (also duplicate, late or unrelated ones) and cancellations",
  "Tests have one outstanding request and one matching reply; duplicates, concurrent requests and replies that race with registration are not sampled.",
  ["transport/requesttable.go","transport/conn.go","federation/sitenode_sender.go","federation/sitenode.go"],
  [("pending-request table keyed by message id","transport/requesttable.go Put/Feed"),("register-then-send","transport/conn.go RequestReply, federation/sitenode_sender.go Route"),("dispatch of incoming messages","transport/conn.go Wait, federation/sitenode.go onMessage")],
  [("RequestTable.table","outstanding requests by id","transport/requesttable.go")])
p("T03","Peer traffic can never stall or crash the receive loop",
  "Late, duplicate, unsolicited or out-of-order replies and heartbeat responses never block the goroutine that reads a connection, never leave a goroutine blocked for good, and never lead to a send on a closed channel or a second close of a channel, however they interleave with cancellation and with Close.",
  ["schedules","histories"],"all interleavings of incoming replies and heartbeat responses with request cancellation and Close",
  "The losing window is between removal of a request from the table and its waiter leaving; no test cancels at that point or sends a heartbeat response nobody waits for.",
  ["transport/requesttable.go","transport/conn.go","lease/agent.go"],
  [("reply hand-over channel","transport/requesttable.go PendingRequest"),("heartbeat hand-over channel","transport/conn.go handleTransportMessage"),("pong broadcast channel","lease/agent.go boardcastPong")])
p("T04","Malformed transport bytes produce an error, never a crash",
  "Whatever bytes a peer sends, reading a frame and its headers either yields a message or returns an error: declared frame, header-section and header lengths are checked against each other and against the data before they are used to slice, index, or size memory, no length computation wraps around, and a header section that ends in the middle of a header is an error rather than a shorter message.",
  ["inputs"],"all byte streams a peer can send",
  "Tests feed well-formed frames plus two flipped bytes; lengths smaller than the fixed header or larger than the body are never tried.",
  ["transport/frame.go","transport/message.go","transport/messageheaders.go","transport/piper.go","transport/tls.go"],
  [("frame reader","transport/frame.go nextFrame"),("header/body split","transport/message.go nextMessageHeaderAndBodyFromFrame, transport/piper.go copy"),("header reader","transport/messageheaders.go nextMessageHeader")])
p("T05","Frame checksums are generated and enforced exactly as configured",
  "With checking enabled a frame whose header or body checksum does not match is never delivered, and with generation enabled each frame carries the checksum the checker computes over the same bytes. Header checksums are on unless disabled, body checksums are on only if enabled, and on TLS connections all four settings are off.",
  ["inputs","configurations"],"all frames and all combinations of the four checksum settings, with and without TLS",
  "Tests corrupt one byte per setting; they do not cover every combination, the mapping from the public options, or the frame paths of the piper and the TLS handshake.",
  ["transport/frame.go","transport/conn.go"],
  [("check on read","transport/frame.go nextFrame"),("generate on write","transport/frame.go writeFrame"),("option mapping","transport/conn.go newConnection, setTls")])
p("T06","Every standard message header is read back as it was written",
  "For every standard header field (message id, relates-to, actor, action, expects-reply, high-priority, idempotent, fault, retry) that a sender sets, the writer emits exactly one header whose id and layout the reader maps back to the same field with the same type; unset optional fields emit nothing and read back as unset (the id and the actor are always written). Headers the reader does not know are kept under their id, in order, and none is silently lost or attributed to another id.",
  ["inputs"],"all header values and all combinations of set and unset headers",
  "One test round-trips a single fully-populated header set; partial sets, repeated custom headers and unknown ids are not covered.",
  ["transport/messageheaders.go","transport/messageheaderid.go"],
  [("header writer","transport/messageheaders.go writeTo"),("header reader","transport/messageheaders.go parseFabricMessageHeaders")])
p("T07","With TLS configured nothing but the handshake travels in the clear",
  "When a TLS configuration is given, a connection is usable only after the TLS handshake has succeeded, and every message it sends or receives afterwards passes through the TLS layer built from exactly that configuration; a failed handshake yields an error and no connection, never a fallback to plain text. This holds for dialed, accepted, piped and lease connections.",
  ["configurations","fault_sequences"],"all TLS configurations and all handshake outcomes, on every way a connection comes into being",
  "One test completes one successful handshake; it cannot tell whether any byte bypasses the TLS layer and no failing handshake is exercised.",
  ["transport/conn.go","transport/tls.go","transport/piper.go","transport/server.go","transport/client.go","lease/agent.go","federation/sitenode.go"],
  [("wrap before use","transport/conn.go tapAcceptedConn, tapClientConn"),("handshake framing","transport/tls.go createTlsConn, fabricSecureConn"),("lease wrapping","lease/agent.go reconnect, handleIncoming")])
p("T08","Every outbound message has its own identity",
  "Each message sent without an id is given a fresh, non-empty id that no concurrent or earlier message from the same generator has; an id chosen by the caller is never replaced. A request is always marked as expecting a reply before it is sent, and the id it is registered under is the id it is sent with.",
  ["schedules","inputs"],"all concurrent uses of one id generator and all caller-supplied messages",
  "Uniqueness under concurrency and preservation of caller ids are not asserted by any test.",
  ["transport/message.go","transport/conn.go","federation/sitenode_sender.go"],
  [("id generator","transport/message.go messageFactory.Next"),("fill if empty","transport/message.go fillMessageId, federation/sitenode_sender.go fillMessageId")])
p("T09","A rejected authentication is final",
  "When the peer reports that connection authentication failed, the connection is closed, and every later send or request on it fails with an error that carries the reported code; a successful authentication notice has no such effect.",
  ["histories","inputs"],"all histories in which an authentication notice arrives among other traffic",
  "No test sends an authentication notice.",
  ["transport/conn.go"],
  [("auth notice handling","transport/conn.go Wait"),("sticky error check","transport/conn.go SendOneWay")],
  [("connection.fatalerr","the authentication error","transport/conn.go")])
p("T10","The piper forwards traffic faithfully and ends both sides together",
  "Every message read from one side is forwarded to the other side with the same headers and body, encoded for that side's connection, unless the configured filter replaces it or drops it, and only the filter can do so. When either direction ends, both connections are closed and neither direction keeps running.",
  ["histories","fault_sequences"],"all message sequences, filters and failure points of either side",
  "The piper has no test at all.",
  ["transport/piper.go"],
  [("forwarding loop","transport/piper.go copy"),("pairing of the two directions","transport/piper.go pipe"),("set-up","transport/piper.go handle")])
p("T11","Heartbeats are answered and matched to their own probe",
  "A heartbeat request from the peer is answered with a heartbeat response carrying the same payload. A ping succeeds only on a response carrying the tick that this very ping sent; responses left over from earlier, cancelled pings are never taken for it and do not make it fail.",
  ["schedules","histories"],"all orders of pings, cancellations and responses",
  "Tests ping once; a cancelled ping followed by another one is not exercised.",
  ["transport/conn.go"],
  [("ping","transport/conn.go Ping"),("heartbeat handling","transport/conn.go handleTransportMessage")])
p("T12","Oversized messages are refused, not corrupted",
  "A transport message whose header section, single header or total size does not fit the length field that announces it on the wire is refused with an error before anything is written. No length is ever silently truncated, so the receiver's view of where headers and body end is the sender's.",
  ["inputs"],"all message sizes",
  "Tests use messages of a few bytes; a truncated length needs more than 65535 bytes of headers.",
  ["transport/frame.go","transport/messageheaders.go","transport/message.go"],
  [("frame length fields","transport/frame.go writeFrame"),("header length field","transport/messageheaders.go writeMessageHeader")])
# ---------------------------------------------------------------- cross-cutting
p("X01","Close or connection loss releases every waiter with an error",
  "When a connection, a site node or a lease session is closed, or a connection's peer goes away, every operation still waiting on it (requests, heartbeats, routed requests, lease pings) returns, and returns an error. An operation that starts waiting while the close is in progress is released too, and closing twice is harmless.",
  ["schedules","fault_sequences"],"all interleavings of waiting operations with Close and with the loss of the peer",
  "One test closes one connection with one pending request a second later; the window between registering and closing, routed requests and lease pings are not covered.",
  ["transport/conn.go","transport/requesttable.go","federation/sitenode.go","federation/sitenode_sender.go","lease/agent.go"],
  [("connection close","transport/conn.go Close, Wait"),("table close","transport/requesttable.go Close"),("site node close","federation/sitenode.go Close"),("session close","lease/agent.go leaseSession.Close, Agent.Close")])
p("X02","Cancellation is honoured by every waiting operation",
  "Every operation that takes a context stops waiting once that context is done and returns an error, the context's own when it was waiting for a reply; it hands the caller's context, never a substitute, to whatever it waits on, and contains no wait that the caller's context cannot interrupt. Exempt is the time a single network write, dial or TLS handshake itself takes.",
  ["schedules"],"all points in time at which the caller's context can be cancelled, for every operation with a context",
  "Tests cancel one request in mid-wait; naming, federation and lease operations, and the second of two pings, are not covered.",
  ["transport/conn.go","transport/requesttable.go","naming/naming.go","federation/sitenode_sender.go","federation/sitenode_boot.go","federation/sitenode_join.go","lease/agent.go"],
  [("select on the context","transport/requesttable.go Wait, transport/conn.go Ping, lease/agent.go Ping"),("context passing","naming/naming.go requestReply, federation/sitenode_join.go Join")])
p("X03","A reported success means every step succeeded",
  "An operation that can fail returns a nil error only if every read, write, dial, handshake, encode, decode and nested operation it depends on succeeded; no such failure is discarded, overwritten, or turned into success. Exempt are best-effort clean-up (closing), the text of an already reported failure, and the pings of keep-alive, bootstrap and discovery, which are repeated by design.",
  ["fault_sequences"],"every single fault at every fallible step of every operation",
  "Tests run the fault-free path; almost no error branch is executed.",
  ["transport","serialization","federation","lease","naming"],
  [("error propagation in every function that returns an error","transport, serialization, federation, lease, naming")])
p("X04","No connection leaks on failure paths",
  "Every connection the library dials or accepts is closed by the library on every path on which it is not handed to a caller who can close it: failed handshakes, failed first writes, failed upstream set-up, and every exit of a serving loop. Closing a lease agent closes its sessions and accepted connections, and closing a site node closes its pooled connections.",
  ["fault_sequences"],"every failure point between obtaining a connection and handing it over or finishing with it",
  "Leaks are invisible to the assertions and the failing steps are not exercised.",
  ["transport/client.go","transport/server.go","transport/piper.go","transport/conn.go","lease/agent.go","federation/sitenode_sender.go","federation/sitenode.go"],
  [("dial and connect","transport/client.go DialTCP"),("serve","transport/server.go handle, transport/piper.go handle, lease/agent.go handleIncoming"),("owner close","federation/sitenode.go Close, lease/agent.go Close")])
p("X05","Accept loops isolate peers, ride out hiccups and end at close",
  "Each accepted connection is served on its own, so that a slow, hostile or failing peer (its handshake included) never delays or ends the acceptance of others. A temporary accept error does not end the loop, and a permanent one, such as the listener being closed, always does, returning the error instead of spinning.",
  ["fault_sequences","schedules"],"all sequences of accept outcomes and peer behaviours, for the server, the piper and the lease agent",
  "Tests accept two well-behaved clients one after the other and never look at what happens after the listener is closed.",
  ["transport/server.go","transport/piper.go","lease/agent.go"],
  [("accept loops","transport/server.go Serve, transport/piper.go Serve, lease/agent.go Wait")])
p("X06","Shared state is free of data races",
  "Every mutable field that more than one goroutine can reach through the public API and the library's own goroutines (connections, request tables, servers, site nodes, connection pools, lease agents and sessions, naming clients, the header registry) is read and written only under one common lock or by atomic or channel operations, or is not modified after the object is shared. Exempt are exported configuration fields that the caller sets before use.",
  ["schedules"],"all concurrent uses of the public API together with the library's own goroutines",
  "Races are schedule dependent; the suite is single-client and not run under the race detector, and federation, lease and naming have no tests.",
  ["transport","federation","lease","naming"],
  [("locks","federation/sitenode.go phaseLock, federation/sitenode_parteners.go partenersRWLock, lease/agent.go objLock and pingLock, transport/conn.go pinglock"),("atomics and sync types","transport/message.go messageIdx, naming/naming.go nextFilterId, sync.Map, sync.Once")])
p("X07","Locks are always released and never deadlock",
  "Every lock taken is released on every way out of the operation, is never taken again by its holder, and locks are always taken in one consistent order. No lock is held while the library calls user code, dials, or waits for something that itself needs that lock.",
  ["schedules"],"all interleavings of operations that take locks",
  "A deadlock needs a particular interleaving or a rarely taken exit; tests cover neither.",
  ["transport","federation","lease"],
  [("critical sections","federation/sitenode.go, federation/sitenode_parteners.go, lease/agent.go, transport/conn.go")])
# ---------------------------------------------------------------- serialization
p("S01","Decoding arbitrary bytes never panics, hangs or over-allocates",
  "Whatever the input bytes and the target type, decoding returns a value or an error: no marker in the data can trigger a panic, element and character counts are checked against the bytes that remain before memory is sized by them, and no declared object size can move the read position backwards over data already consumed. Every read is checked, so truncated input is always an error.",
  ["inputs"],"all byte strings and all supported target types",
  "Tests decode only what the encoder produced.",
  ["serialization/unmarshal.go","serialization/bytecompress.go","serialization/guid.go"],
  [("decoder","serialization/unmarshal.go value, readObjectBegin, consumeObjectEnd"),("counts","serialization/bytecompress.go readCompressed")])
p("S02","For every supported type the decoder accepts what the encoder emits",
  "For each supported kind of field (and element kind of lists), whether the value is empty or not, the type marker and payload layout the encoder emits are ones the decoder accepts for that kind and consumes completely with the same primitive reads in the same order. Kinds the encoder rejects the decoder rejects too, with an error and not a panic.",
  ["inputs"],"all supported kinds, list element kinds, and empty versus non-empty values",
  "Tests cover sample structs; several kinds (small unsigned, float32, lists of some kinds, maps of structs) have no direct round-trip.",
  ["serialization/marshal.go","serialization/unmarshal.go","serialization/fabricserializationtype.go"],
  [("encoder","serialization/marshal.go value, writeEmpty"),("decoder","serialization/unmarshal.go value"),("kind table","serialization/fabricserializationtype.go kindToFabricSerializationType")])
p("S03","The decoder rejects a marker of the wrong type",
  "Data whose type marker does not belong to the kind of the target field is rejected with an error rather than reinterpreted; in particular integers, characters, strings, doubles, booleans, pointers, objects and lists are never decoded from a marker of another class, and a signed target is never filled from an unsigned marker or the reverse.",
  ["inputs"],"all pairs of type marker and target kind",
  "Tests never present a wrong marker.",
  ["serialization/unmarshal.go","serialization/guid.go","federation/nodeid.go"],
  [("marker checks","serialization/unmarshal.go value"),("custom marker checks","serialization/guid.go Unmarshal, federation/nodeid.go Unmarshal")])
p("S04","Object envelopes keep old and new versions compatible",
  "Every object is written as header, begin marker, fields, end markers with a size that covers exactly that; reading stops at the end of the object's own fields, leaves fields absent from the data untouched, and skips fields unknown to the reader by jumping to the end the header declares, which must carry the end markers. Nested objects restore the enclosing object's position, so that the field after a nested object is always read from the right place.",
  ["inputs"],"all pairs of writer and reader versions of a structure, nested or not",
  "Tests cover two hand-written version pairs at top level.",
  ["serialization/marshal.go","serialization/unmarshal.go"],
  [("envelope writer","serialization/marshal.go objectScopeBegin, objectScopeEnd"),("envelope reader","serialization/unmarshal.go readObjectBegin, consumeObjectEnd")])
p("S05","Custom encodings read back exactly what they write",
  "Each type with its own encoding (GUIDs, node ids, node-id ranges) reads the same sequence of markers, counts and fixed-size values that it writes, checks marker and count on the way, and reports every failing step. No other type acquires one of these encodings by accident through embedding.",
  ["inputs"],"all values of the custom-encoded types and all types that embed them",
  "GUIDs are round-tripped in a few tests; node ids and ranges are not tested.",
  ["serialization/guid.go","federation/nodeid.go","federation/nodeid_range.go","serialization/common.go"],
  [("custom marshalers","serialization/guid.go, federation/nodeid.go, federation/nodeid_range.go")])
p("S06","Every message the library sends or expects can be encoded",
  "Every body, header and reply structure the library passes to the encoder or decoder is built only from supported kinds and exported fields, so that encoding it cannot fail for a reason of type and no part of it is silently left out; a header id with a registered reader type is always written with that same layout.",
  ["programs"],"all message types used anywhere in the library",
  "Unsupported field types surface only when that very message is sent; naming, federation and lease messages are not tested.",
  ["naming/naming.go","federation/message.go","federation/sitenode_sender.go","transport/messageheaders.go","transport/conn.go"],
  [("message types","naming/naming.go, federation/message.go, transport/messageheaders.go, common/uri.go"),("reader registry","transport/messageheaders.go RegisterHeaderActivator")])
# ---------------------------------------------------------------- federation
p("F01","Knowledge about a partner node never goes back in time",
  "A partner's record is replaced only by one with a higher instance number, whatever the order and concurrency in which records arrive, and what is handed out to callers is a copy that later updates do not change. The first record of an unknown partner is always kept.",
  ["schedules","histories"],"all orders and interleavings of incoming partner records",
  "Federation has no tests; the lost update needs two records to be processed at the same time.",
  ["federation/sitenode_parteners.go","federation/sitenode.go"],
  [("partner table update","federation/sitenode_parteners.go updatePartnerNode"),("snapshot","federation/sitenode_parteners.go KnownPartnerNodes")],
  [("SiteNode.parteners","known partner records by node id","federation/sitenode.go")])
p("F02","Bootstrap returns as soon as a routing node is known",
  "Bootstrap completes once the node has learned of a routing partner and left the booting phase, no matter whether that happens before, while or after it starts to wait; the notification cannot be missed. While it waits it keeps pinging every seed node, and a seed that cannot be reached does not stop it.",
  ["schedules"],"all interleavings of the phase change with Bootstrap's sending and waiting",
  "Federation has no tests; the lost wake-up needs the reply to arrive between sending and waiting.",
  ["federation/sitenode_boot.go","federation/sitenode.go"],
  [("wait loop","federation/sitenode_boot.go Bootstrap"),("phase change broadcast","federation/sitenode.go changePhase")],
  [("SiteNode.phase, phaseChanged","current phase and its change notification","federation/sitenode.go")])
p("F03","Ring ranges contain exactly the ids on their arc",
  "A range from begin to end contains an id exactly when the id lies on the clockwise arc from begin to end inclusive, for every order of the three values, including ranges that wrap around the top of the id space.",
  ["inputs"],"all triples of 128-bit ids",
  "Federation has no tests; a handful of samples would not cover the orderings of both 64-bit halves.",
  ["federation/nodeid_range.go","federation/nodeid.go"],
  [("containment","federation/nodeid_range.go Contains"),("128-bit comparison","federation/nodeid.go cmp")])
p("F04","Messages go to the intended partner",
  "A message addressed to a specific node is sent to that very node or fails; a routed message goes to the known partner at the smallest clockwise ring distance from the target, and as long as at least one partner other than the node itself is known, one is found. A node never picks itself, and during discovery every partner known so far is pinged.",
  ["histories","inputs"],"all sets of known partners and all target ids",
  "Federation has no tests.",
  ["federation/sitenode_parteners.go","federation/sitenode_sender.go","federation/sitenode_boot.go"],
  [("nearest partner","federation/sitenode_parteners.go closestPartnerNode"),("selection","federation/sitenode_sender.go connectToNode"),("discovery","federation/sitenode_boot.go Discover")])
p("F05","Node ids can be derived from any name without failing hard",
  "Deriving a node id from any string terminates with an id and never panics, and parsing an id from text accepts exactly the numbers an id can hold: text that is not hexadecimal, is negative, or exceeds 128 bits is an error and never a truncated id.",
  ["inputs"],"all strings",
  "Federation has no tests.",
  ["federation/nodeid_generator.go"],
  [("generators","federation/nodeid_generator.go NodeIDFromHex, NodeIDFromMD5, NodeIDFromV4Generator")])
p("F06","Every federation message carries what the sender knows",
  "Every message a node sends to a partner carries the node's own identity, address, lease address and current phase, and the record of every partner whose instance is known, each in a header of its own (unless the message carries such headers already); adding a further header of the same kind never drops one. Point-to-point and routing headers name the true sender and the chosen receiver.",
  ["histories"],"all sets of known partners and all messages",
  "Federation has no tests.",
  ["federation/sitenode_sender.go","transport/messageheaders.go"],
  [("gossip","federation/sitenode_sender.go appendPartnerInfo"),("repeated headers","transport/messageheaders.go AppendCustomHeader")])
p("F07","The connection pool never serves a dead or missing connection silently",
  "At most one connection per partner address is being set up at a time; a caller gets either a connection or an error, never neither. A failed dial or an ended connection is removed from the pool, so that the next send dials again, and incoming traffic on pooled connections reaches the node's message handling.",
  ["schedules","fault_sequences"],"all interleavings of senders, dial failures and connection losses",
  "Federation has no tests.",
  ["federation/sitenode_sender.go","federation/sitenode.go"],
  [("pool","federation/sitenode_sender.go getConn, cachedConn")],
  [("SiteNode.connPool","pooled connections by address","federation/sitenode.go")])
p("F08","Routing and joining report the real outcome",
  "A routed request succeeds only if a reply without an error code arrived for it, and joining succeeds only if the neighbourhood query behind it was answered and understood.",
  ["fault_sequences"],"all reply outcomes",
  "Federation has no tests.",
  ["federation/sitenode_sender.go","federation/sitenode_join.go"],
  [("routing","federation/sitenode_sender.go Route"),("joining","federation/sitenode_join.go Join")])
# ---------------------------------------------------------------- lease
p("L01","A lease ping succeeds only on a pong that follows it",
  "A lease ping returns success only after a pong that arrived after the ping began to wait for it; it cannot miss a pong that arrives quickly, and closing the session makes it fail. A pong updates the session's last-pong time and remote instance before waiting pings are released, and each later ping waits for a new pong.",
  ["schedules"],"all interleavings of pings, pongs and close",
  "The lease package has no tests.",
  ["lease/agent.go"],
  [("ping","lease/agent.go leaseSession.Ping"),("pong","lease/agent.go onMessage, boardcastPong")],
  [("leaseSession.pingCh","channel closed at the next pong","lease/agent.go")])
p("L02","Lease messages are laid out as their header describes and read back",
  "Every list and the listen endpoint of an encoded lease message lie at the offset, with the size and count, that the message header states for them, in bounds and without overlap; the total and header sizes are right. Decoding reads every scalar field from where encoding put it, in the same unit, and finds the listen endpoint the encoder wrote.",
  ["inputs"],"all lease messages",
  "The lease package has no tests.",
  ["lease/serialize.go"],
  [("encoder","lease/serialize.go marshal, marshalLeaseBody"),("decoder","lease/serialize.go unmarshal, dataAtList")])
p("L03","Malformed lease bytes produce an error, never a crash",
  "Whatever bytes a lease peer sends, reading a frame or message yields a message or an error: declared frame sizes, list offsets and list sizes are checked against the data, without wrap-around, before they are used to slice, index or size memory, and no sequence of frames exhausts the stack.",
  ["inputs"],"all byte streams a lease peer can send",
  "The lease package has no tests.",
  ["lease/frame.go","lease/serialize.go"],
  [("frame reader","lease/frame.go nextLtFrame"),("message decoder","lease/serialize.go unmarshal, dataAtList")])
# ---------------------------------------------------------------- naming / common
p("N01","Failures reported by the naming gateway surface as errors",
  "Every naming operation whose reply reports a failure, by a failure action, an error code or a reply that cannot be decoded, returns an error; a reply without the expected content is never dereferenced, and an operation that returns content returns it only from the expected reply.",
  ["inputs"],"all replies a gateway can send",
  "The naming package has no tests.",
  ["naming/naming.go"],
  [("reply check","naming/naming.go requestReply"),("operations","naming/naming.go Ping, GetApplicationList, RegisterFilter")])
p("N02","Service notifications are delivered once understood and acknowledged",
  "A service notification that can be decoded is acknowledged to the gateway with a reply related to it, and passed to the registered handler; one that cannot be decoded is neither acknowledged as successful nor passed on. A handler that blocks never blocks the connection.",
  ["inputs","schedules"],"all notification messages and handler behaviours",
  "The naming package has no tests.",
  ["naming/naming.go"],
  [("notification handling","naming/naming.go onMessage")])
p("B01","Time spans convert without changing sign or order",
  "Converting between wire time spans (100 ns ticks) and durations never changes the sign: a span too large for a duration saturates, in particular the maximum span never becomes a negative duration. Both directions use the same unit.",
  ["inputs"],"all 64-bit time spans and durations",
  "The common package has no tests.",
  ["common/time.go"],
  [("conversion","common/time.go TimeSpanFromDuration, ToDuration")])
# ---------------------------------------------------------------- not decided statically
p("S07","Compressed integers decode to the value that was encoded",
  "Every signed and unsigned integer of every supported width decodes to the value that was encoded.",
  ["inputs"],"all 16, 32 and 64 bit integers",
  "Tests sample a dozen values per width.",
  ["serialization/bytecompress.go"],
  [("7-bit compression","serialization/bytecompress.go")])
p("F09","Generated node ids match those of Service Fabric",
  "The node id derived from a name equals the id Service Fabric derives from the same name.",
  ["inputs"],"all node names",
  "There is no reference implementation here and the package has no tests.",
  ["federation/nodeid_generator.go"],
  [("hashes","federation/nodeid_generator.go")])
p("T13","Requests complete in bounded time under load",
  "With a responsive peer every request completes within the round-trip time plus queueing, however many are outstanding.",
  ["schedules"],"all loads",
  "Timing is not asserted.",
  ["transport/conn.go"],
  [("request/reply","transport/conn.go")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
