COMMON = (" Assumes the standard library, gorilla/websocket and tinylib/msgp behave as documented (modelled, not analysed), no unsafe or cgo in"
          " the module, and user-supplied handlers, parsers and transports that meet their interfaces.")
def P(tech, note): return (tech, note + COMMON)
LEVELS = {
 "C01": P("interprocedural lockset analysis on the SSA form, with publication and construction phases",
          "Every access to every field of every shared struct, on every abstract path from every entry point, goroutine and escaping function value, is checked against the lock that guards the field; paths are over-approximated, so silence means no unguarded access among the recognised shared structs."),
 "C02": P("interprocedural lock typestate, lock-order graph and held-lock effect analysis on the SSA form",
          "Every abstract path of every entry point and goroutine is explored; lock and barrier state is tracked exactly per abstract object."),
 "C03": P("path-sensitive typestate of the upgrade protocol on the SSA form",
          "Every abstract path of the upgrade, from every entry point, goroutine and callback of the engine, is checked against the protocol's automaton (probe, answer, pause, upgrade packet, exclusive replacement, flush, resume); candidates are followed to their release."),
 "C04": P("path-sensitive ownership and order analysis of the packets around a transport replacement, on the SSA form",
          "Each packet flushed, kept, queued, dequeued, read or written is followed as a value on every abstract path of the functions that handle it during an upgrade; loops are decided by index and accumulator invariants, for every number of packets."),
 "C05": P("effect and typestate analysis of the sending goroutine on the SSA form",
          "Every abstract path of every entry point and goroutine of the engine; the packet taken from the queue is followed as a value to its write."),
 "C06": P("typestate of closing (channels, Once, sender, transport) on the SSA form",
          "Every abstract path of every entry point and goroutine of the engine."),
 "C07": P("effect analysis of blocking operations on the SSA form",
          "Every blocking channel operation reachable in both packages is classified by the channels it waits on; system calls made by dependencies are assumed to end when their connection is closed or their deadline passes."),
 "C08": P("path-sensitive guard and provenance analysis of request admission on the SSA form",
          "Every abstract path of the server's ServeHTTP; the guards are compared by the constant or table they test against and the query value they test."),
 "C09": P("path-sensitive guard analysis of accepted connections on the SSA form",
          "Every abstract path of both transports' accept functions; the loop over the checkers is decided by an index invariant for any number of checkers."),
 "C10": P("ownership typestate of sessions and connections on the SSA form",
          "Every abstract path of every entry point and goroutine of the engine; panics of user handlers are not considered."),
 "C11": P("typestate and provenance analysis of session construction on the SSA form",
          "Every abstract path of the dispatcher, the readers and Dial; the set-up loop is decided by an index invariant for any number of functions."),
 "C12": P("provenance analysis of deadlines and periods, typestate of reads, writes and pings, on the SSA form",
          "Decides which deadline or period is set from which setting before which operation; that timers and deadlines then fire in time is the run time's."),
 "C13": P("path-sensitive response typestate and content provenance analysis on the SSA form",
          "Every abstract path of the polling connection's ServeHTTP; what is written is followed as values through buffers, formatting and JSON encoding. A packet taken for a poll whose response cannot be written is out of scope."),
 "C14": P("path-sensitive interval, progress and provenance analysis of the decoding functions on the SSA form",
          "Every abstract path of Payload.ReadFrom and of the websocket ReadPacket, for 64- and 32-bit integers; reads are opaque and may return anything. The websocket library's own limits are out of scope."),
 "C15": P("typestate of received packets in the reading goroutines on the SSA form",
          "Every abstract path of every reader goroutine; packet types are tracked as facts, so each type is decided separately."),
 "C16": P("ownership (freshness) analysis of byte slices on the SSA form",
          "Every abstract path of the functions that read, decode and encode packets of both packages; a slice counts as owned only if an allocation of the same call is proved to back it. Data a user type returns from MarshalBinary is the user's."),
 "C17": P("provenance analysis of session ids and pairing of table operations, on the SSA form",
          "Every abstract path of every entry point and goroutine of the engine; every byte of the random part of an id must come from an error-checked read of crypto/rand and reach the id."),
 "C18": P("path-sensitive guard and provenance analysis of packet dispatch on the SSA form",
          "Every abstract path of the message handlers of server and client; packet types are facts, so each type is decided separately. Hooks must be registered before traffic starts; an event name is compared as the decoder returned it."),
 "C19": P("path-sensitive counting and provenance analysis of acknowledgements on the SSA form",
          "Every abstract path of the message handlers; the list of results is decided by an index invariant for any number of results. The argument's encoding is the encoder's (C24, C25, C27)."),
 "C20": P("typestate and critical-section analysis of acknowledgement callbacks on the SSA form",
          "Every abstract path of the handlers and of the functions users call; ids are fresh because they come from a counter that only grows (its overflow after 2^64 callbacks is ignored)."),
 "C21": P("error-discipline dataflow and nil/bounds analysis on the SSA form",
          "Every abstract path of the handlers, the functions users call and the encoding and decoding methods; panics inside user callbacks and inside dependencies are out of scope."),
 "C22": P("typestate of a message's frames and locks held, on the SSA form",
          "Every abstract path of the handlers and of the functions users call; the loop over attachments is decided by an index invariant. That the engine keeps the order of what is queued is C05."),
 "C23": P("typestate and critical-section analysis of joined namespaces on the SSA form",
          "Every abstract path of the handlers and of the functions users call; ranging over the namespaces taken is decided element by element."),
 "C24": P("path-sensitive interval, linear-inequality and typestate analysis of the default decoder on the SSA form",
          "Every abstract path of Add, ParseData and UnmarshalArgs; the invariant between frames (something is missing, and there is room for it) is established and used. encoding/json, regexp and net/url are taken to be total."),
 "C25": P("totality analysis (bounds, assertions, reflection kinds, recursion, allocation), element-count invariants and error-discipline dataflow of the MessagePack decoder on the SSA form",
          "Every abstract path of the decoder's methods and of Packet's decoding methods; msgp's own functions are opaque, the recursive ones among them (found by their call graph) must be guarded by a depth check."),
 "C26": P("guard, provenance and index-invariant analysis of callbacks and their arguments on the SSA form",
          "Every abstract path of the functions that make and call callbacks, decode arguments and emit; loops over parameters are decided by an index invariant for any number of them. Kinds nested inside slices, maps and pointers of parameters are not looked at."),
 "C27": P("table extraction: constants, tags and patterns evaluated, and per-path content analysis of encoders and provenance analysis of decoders, on the SSA form",
          "Every abstract path of each encoder and decoder; packet type and kind are facts, so each is decided separately. The order of the digits of binary payload lengths is not decided; other implementations of the protocols are represented by the formats written down here."),
}
NA = {
 "C28": "equality of values after a round trip through encoding/json and msgp quantifies over runtime values computed in dependencies; no structural condition decides it (the structural part, agreement of the tables, is C27)",
 "C29": "end-to-end delivery over a real network depends on peers and the network, which no source analysis bounds; the local obligations it rests on are C04, C05, C15 and C22",
 "C30": "wall-clock timing under load is a runtime quantity; the structural part (which deadline is set from which setting before which operation) is C12",
}
