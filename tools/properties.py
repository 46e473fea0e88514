#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one source for the texts; run after editing).
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))

prop("C01", "Shared session and server state is accessed without data races",
 "State that several goroutines share (a session's current connection, transport name and pending packets, the tables of sessions, event handlers, sockets, namespaces, event callbacks and outstanding acknowledgements, a session's request headers, the transports, what an encoder keeps) is read and written only while the lock that guards it is held, or atomically, once the object is shared. Event handlers, event callbacks and namespaces may therefore be registered, and any session method called, while traffic is being served (the connect, disconnect and error hooks are set up before).",
 ["schedules"], "every interleaving of HTTP requests, session readers, emitters, upgrades and user calls",
 "A race needs a particular interleaving; no test serves two requests of one session, let alone an upgrade, concurrently.",
 ["engine/socket.go", "engine/server.go", "engine/session.go", "engine/handle.go", "engine/emitter.go", "engine/transport.go", "server.go", "client.go", "socket.go", "handle.go"],
 [("RWMutex in Socket, sessionManager, eventHandlers", "engine/socket.go, engine/session.go, engine/handle.go"), ("sockLock, nspLock, socket.mutex, namespace.mutex, ackHandle.mutex", "server.go, client.go, socket.go, handle.go")],
 [("Socket.Conn", "current transport, replaced by an upgrade", "engine/socket.go"), ("sessionManager.ß", "live sessions by id", "engine/session.go")])

prop("C02", "Locks are always released, never nested cyclically, never held over user code",
 "Every lock and every transport-upgrade barrier a call takes is released on every way out of it, no lock is acquired again by its holder, and locks are nested in one global order. No user-supplied handler, acknowledgement callback or origin checker is called while the library holds a lock or blocks a session's sending for an upgrade, and nothing waits for a peer's packet or for the sending goroutine while holding a lock that this goroutine needs.",
 ["schedules", "inputs"], "every path through every exported call and background goroutine, error paths and explicit panics included",
 "A leaked or re-entered lock shows only as a hang on one error path or one re-entrant handler; the tests exercise neither.",
 ["engine/server.go", "engine/socket.go", "engine/emitter.go", "engine/session.go", "engine/handle.go", "engine/barrier.go", "server.go", "client.go", "socket.go", "handle.go"],
 [("Pause with deferred Resume", "engine/server.go upgrade"), ("handlers looked up under the lock and called after it", "engine/handle.go fire, handle.go fireEvent and fireAck, socket.go detachall")])

prop("C03", "A transport upgrade follows the probe handshake and is all or nothing",
 "A session moves to another transport only after the candidate connection was accepted, delivered a ping packet, was answered with a pong carrying the same data, the old transport was paused, and the candidate then delivered an upgrade packet, each read and write under a fresh deadline. Every other outcome closes the candidate, resumes the old transport if it was paused and leaves the session on it; on success the old transport is closed, request headers are carried over and the upgrade event is fired once. Only the advertised upgrade (to websocket) is carried out, and never for a session that is closing.",
 ["fault_sequences", "schedules", "inputs"], "every failure point and packet sequence of an upgrade",
 "Each failure point of the handshake needs a misbehaving peer at one step; no test performs an upgrade at all.",
 ["engine/server.go", "engine/transport.go", "engine/socket.go"],
 [("upgrade", "engine/server.go"), ("Pause/Resume of Conn", "engine/transport.go")], observe=["EventUpgrade", "packets on either connection"])

prop("C04", "A transport upgrade neither loses nor reorders packets",
 "Packets queued for the client on the old transport are written to the new one, all of them, in order and before anything newer; packets received on the old transport and not yet handled are handled, in order, before those of the new one. A write cut short by the pause is repeated with the same packet before the next one, a read interrupted by it or by the closing of the replaced transport does not end the session, and a paused poll is answered with a noop. A request that attempts an upgrade never serves the session's polling traffic.",
 ["schedules", "fault_sequences"], "every position of an upgrade relative to concurrent reads, writes and polls",
 "Loss depends on where the upgrade cuts a concurrent read or write; tests perform no upgrade.",
 ["engine/server.go", "engine/socket.go", "engine/emitter.go", "engine/polling.go"],
 [("FlushOut / FlushIn under the session lock", "engine/server.go upgrade"), ("pending", "engine/socket.go Read"), ("retry on ErrPollingConnPaused", "engine/emitter.go write")])

prop("C05", "Each session has a single writer that sends packets in the order accepted",
 "Packets accepted for a session are written to its transport by one goroutine, one after the other in the order accepted, each exactly once per accepted packet, under a write deadline set for it from the configured timeout. No other code writes to a session's current transport, and a packet is never skipped or left waiting: if writing it fails for another reason than a pause, the transport is closed.",
 ["schedules", "fault_sequences"], "every interleaving of concurrent senders, pings, pongs and write failures",
 "Interleaved or skipped writes need concurrent emitters or a failing transport; tests write from one goroutine to an in-memory queue.",
 ["engine/emitter.go", "engine/socket.go", "engine/server.go"],
 [("emitter loop and queue", "engine/emitter.go"), ("Emit submits to the emitter", "engine/socket.go")])

prop("C06", "Closing is idempotent and delivers what was accepted before it",
 "Closing a session, however often and from however many goroutines, stops its sender once, waits until every packet accepted so far has been handed to the transport, and only then closes the transport. Sending on a closed session fails with an error instead of blocking or dropping the packet silently; a client's close does the same and stops its background goroutines.",
 ["schedules"], "every interleaving of close with close, send and upgrade",
 "The drain is only observable when close races with queued packets; tests close idle connections.",
 ["engine/socket.go", "engine/emitter.go", "engine/client.go", "engine/polling.go", "engine/server.go"],
 [("sync.Once around close", "engine/socket.go Close, engine/client.go Close, engine/polling.go Close, engine/server.go Close"), ("done channel, flush, WaitGroup", "engine/emitter.go")])

prop("C07", "Blocking operations end with their connection, deadline or request",
 "Every operation that can block on another goroutine or on the peer also ends when the connection, session or server it belongs to is closed. Reading from and writing to a polling transport further end at the deadline set and at a pause, a pending poll also ends when its request is cancelled or the transport is paused, and an accepted connection is not left waiting on a server that has been closed.",
 ["schedules", "fault_sequences"], "every blocking point and every order of close, cancel, pause and deadline",
 "A missing wake-up is a hang in one interleaving; the tests check deadlines of an isolated connection only.",
 ["engine/polling.go", "engine/emitter.go", "engine/server.go", "engine/client.go", "engine/socket.go"],
 [("select with closed, pause, deadline and context cases", "engine/polling.go"), ("select with done", "engine/emitter.go, engine/server.go, engine/client.go")])

prop("C08", "Requests are admitted only with a valid version, transport and session",
 "A request reaches a transport or session only if it names the supported protocol version, a known transport and, when it carries a session id, a live session; one without an id creates a new session. Any other request is answered with exactly one 400 error and touches no session.",
 ["inputs"], "every combination of query parameters",
 "Tests contain no HTTP request to the server.",
 ["engine/server.go", "engine/session.go", "engine/protocol.go"],
 [("query checks", "engine/server.go ServeHTTP"), ("session lookup", "engine/session.go Get")])

prop("C09", "Origin checks guard every accepted connection",
 "A server created with origin checkers accepts a connection, by either transport and for new sessions as well as upgrades, only if every non-nil checker approved the request; a refused polling request gets exactly one 403 response and yields no connection. Without checkers every origin is accepted.",
 ["inputs", "configurations"], "every request and every set of checkers",
 "Tests configure no checker and accept no connection.",
 ["engine/server.go", "engine/transport.go"],
 [("checkOrigin closure installed in both transports", "engine/server.go NewServer"), ("CheckOrigin before creating the connection", "engine/transport.go Accept")])

prop("C10", "Every session is released exactly once when it ends",
 "However a session ends, the server forgets its id, closes its connection and fires the close event exactly once, on the server as on the client. A connection that never becomes a served session (failed handshake of a client, or a server already closed) is closed and forgotten as well.",
 ["fault_sequences", "schedules"], "every way a session or handshake can end",
 "Needs each failure point of a session's life; tests open no session.",
 ["engine/server.go", "engine/client.go", "engine/session.go", "server.go", "client.go"],
 [("deferred Remove, Close and close event in the reader goroutines", "engine/server.go, engine/client.go"), ("deferred Close in Dial", "engine/client.go"), ("removal of a session the closed server no longer serves", "engine/server.go ServeHTTP")])

prop("C11", "A session starts with a consistent open handshake",
 "A new session is first sent an open packet carrying its own id, websocket as the upgrade, and the configured ping interval and timeout in milliseconds; the open callback then completes before any of its packets is handled. A client is created only from an open packet whose parameters decode, takes its session id and timing from them, and is set up completely before it handles a packet.",
 ["schedules", "inputs"], "every new session and every first packet a server may send",
 "Tests perform no handshake; ordering against the first packets depends on scheduling.",
 ["engine/server.go", "engine/client.go", "server.go", "client.go"],
 [("open packet, then onOpen, then read loop", "engine/server.go NewServer"), ("first packet check and init functions", "engine/client.go Dial")])

prop("C12", "Heartbeats are answered and silent peers time out",
 "Before every wait for a peer's packet a session sets a fresh read deadline of ping interval plus ping timeout, and ends if it expires; writes get the ping timeout. A server answers every ping with one pong carrying the same data and kind, and a client sends a ping every ping interval until it is closed or sending fails.",
 ["histories", "fault_sequences"], "every sequence of packets and silences",
 "Tests check deadlines of an isolated connection, not that sessions set them on every read.",
 ["engine/socket.go", "engine/server.go", "engine/client.go", "engine/emitter.go"],
 [("SetReadDeadline before ReadPacket", "engine/socket.go Read"), ("ping handling", "engine/server.go handle"), ("ping goroutine", "engine/client.go Dial")])

prop("C13", "Every polling request gets exactly one well-formed response",
 "Every request to a polling connection is answered exactly once on every path, success or failure: errors carry an error status, a poll returns exactly one packet, and headers are set before any part of the body is written. A JSONP response calls the callback slot of a purely numeric index with the JSON-encoded packet as a JavaScript string; nothing else of the request is echoed. A posted payload is accepted only with a supported content type, and all of its packets or, if the connection closes meanwhile, an error result.",
 ["inputs", "fault_sequences"], "every method, query, content type and failure point",
 "Tests encode payloads in memory and never look at a response.",
 ["engine/polling.go"],
 [("ServeHTTP of the polling connection", "engine/polling.go"), ("writeJSONP, writeXHR, writeXHR2", "engine/polling.go")])

prop("C14", "Decoding a polling payload or a websocket frame is total and exact",
 "No sequence of bytes makes decoding a payload or frame panic or allocate memory out of proportion to the bytes received; malformed lengths and encodings are rejected with an error. A packet of a payload is accepted only if all bytes its length announces were read, and decoding a payload succeeds only at the end of input on a packet boundary; a frame becomes a packet only if it was read to its end without an error.",
 ["inputs"], "every byte sequence, split into reads in every way",
 "Tests decode a handful of well-formed payloads from one in-memory buffer.",
 ["engine/payload.go", "engine/websocket.go"],
 [("decodeHead bounds", "engine/payload.go"), ("readBody", "engine/payload.go"), ("EOF handling", "engine/payload.go readFrom")])

prop("C15", "Each received packet is dispatched once, in order, by the session's reader",
 "Every session has one reader that handles each packet it reads exactly once before reading the next; message packets reach the message handler with the packet's kind and data unchanged, on a server ping and pong packets reach the ping and pong handlers, and no other packet reaches the message handler. A failed read ends the session, an unknown packet type is an error and does not.",
 ["histories", "schedules"], "every sequence of received packets",
 "Tests register no handler and run no session.",
 ["engine/server.go", "engine/client.go", "engine/handle.go", "engine/socket.go"],
 [("reader goroutine", "engine/server.go NewServer, engine/client.go Dial"), ("handle", "engine/server.go, engine/client.go"), ("fire", "engine/handle.go")])

prop("C16", "Received data is never overwritten after delivery",
 "The data of every received packet and attachment lives in memory allocated for it alone: handing it to a handler, queueing it or keeping it in a decoded message never exposes it to being overwritten by a later read or encode. Attachments that arrived with a message are not sent back with its acknowledgement.",
 ["histories"], "every sequence of packets following the delivery",
 "Corruption shows only when a buffer is reused for later traffic; tests look at each packet at once.",
 ["engine/payload.go", "engine/websocket.go", "parser_default.go", "parser_msgp.go"],
 [("buffer local to each decode", "engine/payload.go readBody, engine/websocket.go ReadPacket"), ("buffer reset on encode", "parser_default.go preprocess")])

prop("C17", "Session ids are unguessable and identify one session",
 "Every session id contains at least 80 bits taken from the cryptographic random source, and the id under which a session is stored, looked up, announced to the client and removed is the same.",
 ["histories"], "every session ever created",
 "Unpredictability and uniqueness are not observable from a sample of ids.",
 ["engine/session.go", "engine/server.go", "engine/socket.go"],
 [("generateSidBytes", "engine/session.go"), ("NewSession, Get, Remove", "engine/session.go")])

prop("C18", "Messages are dispatched only to the namespace and event they name",
 "A decoded event fires only the callback registered for its event name in its own namespace, with a socket bound to that namespace; server side only if the client has joined the namespace, otherwise an error packet (for packets other than connect and disconnect) is returned for that namespace. Each packet type is handled as its kind, and an unknown one is reported as an error.",
 ["histories", "inputs"], "every history of packets over every set of namespaces",
 "Tests decode packets but never route one.",
 ["server.go", "client.go", "handle.go", "socket.go"],
 [("process", "server.go, client.go"), ("fireEvent", "handle.go"), ("attached", "socket.go")])

prop("C19", "An event is acknowledged exactly when it asks for it, exactly once",
 "An event that carries an id is answered, after its callback ran, with exactly one acknowledgement with the same id and namespace carrying the list of the callback's results, empty if there are none; an event without an id, or one that could not be decoded, is not. Sending the acknowledgement never reports success when it failed.",
 ["histories", "inputs"], "every event, callback outcome and failure",
 "Tests contain no round trip with an acknowledgement.",
 ["server.go", "client.go", "socket.go"],
 [("acknowledgement branch of process", "server.go, client.go"), ("ack", "socket.go")])

prop("C20", "An acknowledgement callback fires at most once, for its own event",
 "A callback passed when emitting an event is registered under an id no other outstanding callback of that session and namespace has, before the event is sent with that id. An acknowledgement fires the callback with its id in its namespace only, and at most once however often or concurrently it arrives.",
 ["schedules", "histories"], "every interleaving of emits and (duplicate) acknowledgements",
 "Double firing needs two acknowledgements racing; tests never register one.",
 ["socket.go", "handle.go", "server.go", "client.go"],
 [("ackHandle", "handle.go"), ("emit", "socket.go")])

prop("C21", "Processing errors reach an error handler and never crash the session",
 "Every failure to decode a message, to decode its arguments, to send its reply or to encode it is returned to the caller or reported to the error handler of the namespace (or of the server or client); none is dropped and none is reported as success. Handlers the user did not register are never called.",
 ["inputs", "fault_sequences"], "every failing step of processing any message",
 "Tests cover the successful path of the parsers only.",
 ["server.go", "client.go", "socket.go", "callback.go", "parser_default.go", "parser_msgp.go"],
 [("error branches of process", "server.go, client.go"), ("encoder errors", "parser_default.go, parser_msgp.go")])

prop("C22", "The frames of a message are sent contiguously and in order",
 "The text frame of a message, if any, is sent before its attachments, these in their own order, with no frame of another message of the same connection in between, whichever goroutines send. A message that cannot be encoded sends nothing, and nothing more is sent of one after a frame failed.",
 ["schedules"], "every interleaving of concurrent senders",
 "Interleaving needs concurrent emits of messages with attachments; tests encode in memory.",
 ["socket.go"], [("emitPacket with the order lock", "socket.go")])

prop("C23", "Joining and leaving a namespace are paired and reported once",
 "The connect handler of a namespace is called once when a connection joins it, the disconnect handler once when it leaves it, by request or because the connection ended, and only if it had joined; when the connection ends every namespace still joined is left. A server confirms each join, for the root namespace on opening, before calling the handler; repeating a join keeps outstanding acknowledgements.",
 ["histories", "schedules"], "every history of connects, disconnects and connection losses",
 "Needs repeated and missing disconnects and connection loss; tests join no namespace.",
 ["server.go", "client.go", "socket.go"],
 [("attachnsp, detachnsp, detachall", "socket.go"), ("process", "server.go, client.go")])

prop("C24", "Default-format decoding is total and yields only complete messages",
 "No sequence of text and binary frames makes the default decoder panic or block; malformed ones are rejected with an error. A message is delivered exactly when the number of attachments it announced, which must match its placeholders, has arrived, with the attachments in order of arrival; the id of a message is the decimal number it carries.",
 ["inputs", "histories"], "every sequence of frames",
 "Tests decode well-formed messages only.",
 ["parser_default.go"], [("decode and Add", "parser_default.go")])

prop("C25", "MessagePack decoding is total and yields only complete values",
 "No frame makes the MessagePack decoder panic, block or allocate memory out of proportion to the frame; malformed ones are rejected with an error. A list, map or packet is delivered only with all the elements its header announces, in order, and a message only with its event and data. Every failing step of decoding, arguments included, returns its error.",
 ["inputs"], "every byte sequence",
 "Tests decode well-formed messages only.",
 ["parser_msgp.go", "packet.go"], [("Add, ParseData, UnmarshalArgs", "parser_msgp.go")])

prop("C26", "Callbacks are validated when registered and called with matching arguments",
 "Registering anything but a function, or a function with a channel, function or unsafe pointer parameter, is refused at once. A callback is called only with as many arguments as it has parameters, each decoded for its type, a socket parameter always receiving the socket concerned; emitting to a namespace that is not joined is refused with an error and sends nothing.",
 ["inputs"], "every function type and argument list",
 "Tests bind a handful of signatures.",
 ["callback.go", "socket.go", "parser_default.go", "parser_msgp.go"],
 [("newCallback and Call", "callback.go"), ("emit", "socket.go")])

prop("C27", "Both directions of each wire format agree on their tables",
 "Packet type and message kind codes, framing bytes, query parameters and the mapping to websocket message kinds are those of engine.io protocol 3 and socket.io protocol 4, and the encoder and decoder of each format use the same ones; every packet type has a distinct code that survives encoding and decoding on every transport, and a packet is accepted in every form its encoder produces (with or without namespace, id and data). No part of a packet's text is passed over unread, and the library's type for binary data gives out exactly the bytes it was given.",
 ["inputs", "programs"], "every packet type, message kind and transport",
 "Round trips in tests sample some types on one transport.",
 ["engine/protocol.go", "engine/payload.go", "engine/websocket.go", "protocol.go", "parser_default.go", "packet.go"],
 [("constants", "engine/protocol.go, protocol.go"), ("encodeHead/decodeHead, nextWriter/ReadPacket", "engine/payload.go, engine/websocket.go")])

prop("C28", "Encoding then decoding any message yields an equal message",
 "For every message of supported argument types, decoding what either parser encoded yields equal arguments, in either format and on either transport.",
 ["inputs"], "every argument value", "Tests sample a few values.",
 ["parser_default.go", "parser_msgp.go", "engine/payload.go"], [("Encode and Decode", "parser_default.go, parser_msgp.go")])

prop("C29", "Every accepted message is delivered end to end exactly once",
 "While both peers stay up and the network eventually delivers, every message accepted by one side fires the other side's handler exactly once.",
 ["histories", "fault_sequences", "schedules"], "every network behaviour", "Depends on the network and on the peer.",
 ["engine/polling.go", "engine/websocket.go"], [("transports", "engine/polling.go, engine/websocket.go")])

prop("C30", "Heartbeat timing is accurate",
 "A silent peer is detected no earlier than and at most shortly after the announced interval plus timeout.",
 ["schedules"], "every load and clock behaviour", "Wall-clock behaviour under load.",
 ["engine/socket.go", "engine/client.go"], [("deadlines and timers", "engine/socket.go, engine/client.go")])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
