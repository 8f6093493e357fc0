#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- codec
p("C01", "Scalars survive an encode/decode round trip",
  "Any nil, bool, string, float or integer of any width and signedness that is encoded with the codec decodes without error to a value that the accessor of the original's width (and every wider accessor of the same signedness) returns unchanged, and encoding a value never fails on a working writer. Decoding consumes exactly the bytes the encoding produced, so values written one after another are read back one after another.",
  ["inputs"], "every bit pattern of every scalar type, every string content, any sequence of values on one stream",
  "the suite encodes one or two constants per type; the encoding picks a width by magnitude, so mistakes live at the boundaries between widths and signs, and in rare bit patterns (0.0, denormals, -128, 2^31).",
  ["codec/encoder.go", "codec/decoder.go", "codec/any.go", "codec/code.go"],
  [("width-narrowing integer encoders", "codec/encoder.go:encodeInt64/encodeUint64 and below"), ("tag dispatch", "codec/decoder.go:decode")],
  observe=["codec.NewAny(v).Encode / Decode / accessors"])
p("C02", "Arrays, slices and maps survive an encode/decode round trip",
  "Encoding any array, slice or map whose elements are encodable, including typed and named ones, empty ones, nested ones and ones holding nil, and then decoding it yields the same number of elements, each equal in value to the original at its position or under its key, and consumes exactly the bytes written.",
  ["inputs"], "every container shape and element values within the size bound, every map iteration order",
  "the suite round-trips one array and one map of constants; element order, nesting, nil holes and element widths are never varied.",
  ["codec/encoder.go", "codec/decoder.go"],
  [("encodeArray/encodeMap/encodeValue", "codec/encoder.go"), ("decodeArray/decodeMap", "codec/decoder.go")],
  observe=["IAny.Arr", "IAny.Map", "IAny.Any"])
p("C03", "Decoding hostile or truncated bytes fails cleanly",
  "Decoding an arbitrary byte sequence either yields a value or returns an error: it never panics and never allocates memory out of proportion to the bytes actually received. Every proper prefix of a valid encoding decodes to an error, never to a made-up value, and an error leaves the previously held value usable.",
  ["inputs", "fault_sequences"], "every byte string up to the length bound, every truncation point of every encoding in scope",
  "no test feeds malformed or truncated bytes; the interesting bytes (a length larger than the data, a float tag followed by something else, a container used as map key) are rare among all inputs.",
  ["codec/decoder.go", "codec/any.go"],
  [("decode and the read helpers", "codec/decoder.go")], observe=["IAny.Decode"])
p("C04", "Decoding does not depend on how the stream is fragmented",
  "For any encoding and any way the reader hands out its bytes (one at a time, in arbitrary chunks), decoding produces the same value and the same error outcome as decoding it from one contiguous buffer.",
  ["inputs", "fault_sequences"], "every fragmentation of every encoding within the bound",
  "the tests only use bytes.Buffer, which always returns all it has in a single read.",
  ["codec/decoder.go"], [("fixed-width and string reads", "codec/decoder.go:readUint16.. / decode cStr32")], observe=["IAny.Decode"])
p("C05", "An encode that could not be written reports an error",
  "If any write to the destination fails during encoding, Encode returns a non-nil error; when Encode returns nil, the destination has received the complete encoding in order.",
  ["inputs", "fault_sequences"], "every value shape in scope and every position of the failing write",
  "no test uses a failing writer.",
  ["codec/encoder.go", "codec/any.go"], [("error propagation in the encoders", "codec/encoder.go")], observe=["IAny.Encode"])
p("C06", "Typed accessors are total and faithful",
  "For a wrapped value of any type, Any returns the value itself, and each typed accessor either returns the source value converted to its type or returns an error; it never panics. An integer, float, bool, string, list or map accessor succeeds exactly on sources of its own kind (signed, unsigned, float, bool, string, list, map), and returns the value unchanged whenever it is representable in the requested type.",
  ["inputs"], "every supported source type and value, every accessor, fresh or decoded",
  "the tests call the one matching accessor on one constant each; mismatched accessors, other widths and boundary values are not exercised.",
  ["codec/any.go"], [("normalize and the accessor switch per kind", "codec/any.go")], observe=["IAny accessors"])

# ---------------------------------------------------------------- chancall
p("H01", "Every call returns exactly its own outcome",
  "A call made through a caller returns exactly once, either with the results of executing its own method on its own arguments or with an error; it never returns the outcome of another call, also when earlier calls timed out while still executing and when several callers use the same callee concurrently.",
  ["schedules", "inputs", "histories"], "every interleaving of callers, callee and timers within the bounds, arbitrary arguments and durations",
  "the test makes three sequential calls and checks nothing but that they finish; a late result being delivered to a later call needs a particular timer/callee interleaving.",
  ["chancall/callee.go", "chancall/caller.go", "chancall/data.go"],
  [("done flag under the request mutex", "chancall/callee.go:result/track"), ("response channel per caller", "chancall/caller.go")],
  state=[("done", "the request has been answered", "chancall/data.go")], observe=["ICaller.Call/CallWithResult"])
p("H02", "Calls time out at, and not before, the configured time",
  "A call whose method finishes within the timeout configured for that method returns its results; a call whose method is still executing when the timeout has elapsed returns an error at that time instead of waiting for the method. The timeout is the configured number of seconds including fractions, and one second for methods that were not configured.",
  ["inputs", "schedules"], "every timeout and every execution time on a fine grid, configured or default",
  "the only timeout test configures 0.1 s for a 2 s method and passes for any timeout below 2 s, including zero.",
  ["chancall/callee.go", "chancall/meta.go"], [("track", "chancall/callee.go"), ("per-method timeout table", "chancall/meta.go")], observe=["ICallee.SetTimeout", "ICaller.Call"])
p("H03", "A feature executes one call at a time, in submission order",
  "The methods of one callee never overlap in time: each call starts executing only after the previous one has finished, even if the previous one has already timed out, and calls submitted one after another execute in that order. Every submitted call is executed exactly once.",
  ["schedules", "histories"], "every interleaving of the callers within the bounds",
  "no test has two calls in flight.",
  ["chancall/callee.go", "chancall/API.go"], [("single handling goroutine per callee", "chancall/callee.go:handling")], observe=["target methods"])
p("H04", "A call that cannot be executed yields an error and harms nobody else",
  "A call naming an unknown method, or passing arguments of wrong number or inconvertible type, returns an error to its own caller without executing anything; the process survives and the callee goes on serving other calls correctly.",
  ["inputs", "histories"], "every mismatch of name, argument count and argument kind within the bound, before and after valid calls",
  "the tests only make well-formed calls.",
  ["chancall/meta.go", "chancall/callee.go"], [("meta.call", "chancall/meta.go")], observe=["ICaller.Call/CallWithResult"])
p("H05", "Arguments and results keep their values across a call",
  "Each argument reaches the method at its own position with its value preserved when its type is convertible to the parameter type and the value is representable there, and all results come back in declaration order with their values and types unchanged; calls without results return an empty result list.",
  ["inputs"], "every argument value and numeric argument/parameter type pairing within the bound, 0 to 3 parameters and results",
  "tests pass two small ints and print the result.",
  ["chancall/meta.go"], [("Convert of arguments, Interface of results", "chancall/meta.go:call")], observe=["ICaller.CallWithResult"])

# ---------------------------------------------------------------- misc
p("M01", "The set behaves like a mathematical set",
  "For every history of Add, Remove and ToSlice: Add reports true exactly when the item was absent, Remove reports true exactly when it was present, and ToSlice lists exactly the present items, each once, and later changes to the set or to the returned slice do not affect each other.",
  ["histories", "inputs"], "every operation sequence up to the length bound over arbitrary items",
  "tests perform three adds and one remove on constants.",
  ["misc/set.go"], [("map-backed set", "misc/set.go")], observe=["ISet"])

# ---------------------------------------------------------------- network
p("N01", "The byte stream is cut into exactly the packets that were sent",
  "However the transport fragments or coalesces the bytes of a connection, the receiving sink gets exactly the packets the sender sent on it: all of them, each once, whole, unmodified and in order, and a packet is delivered as soon as its last byte has arrived.",
  ["inputs", "fault_sequences"], "every packet content and every fragmentation within the bound, text packets and the framework's own length-prefixed packets",
  "tests send two tiny packets through a mock that preserves write boundaries.",
  ["network/peer.go", "network/txt_serializer.go", "serializer.go"],
  [("recv buffer and Slice loop", "network/peer.go:run"), ("length header", "serializer.go:Slice/Marshal"), ("NUL terminator", "network/txt_serializer.go")],
  observe=["ISocketSink.OnPacket"])
p("N02", "Sent packets reach the wire once each, in order, on their own connection",
  "Objects passed to a peer's Send by one goroutine are marshalled and written to that peer's connection in the order sent, each exactly once, as long as the bounded send queue is not overrun; nothing is ever written to any other connection, and a socket's Send does this for every connected peer.",
  ["schedules", "inputs", "histories"], "every interleaving of senders and send routine within the bounds, one to three peers",
  "the test sends a single string once.",
  ["network/peer.go", "network/socket.go"], [("per-peer queue and send routine", "network/peer.go:Send/run"), ("broadcast", "network/socket.go:Send")], observe=["net.Conn.Write"])
p("N03", "Closing is clean and safe at any moment",
  "Closing a socket closes its listener and every one of its connections and reports each connection closed to the sink exactly once, whatever is in flight; closing while packets arrive, while packets are being sent, or twice never panics, and no connection established on it stays open afterwards.",
  ["schedules", "crash_points"], "every interleaving of close with delivery, sending and accepting within the bounds",
  "the test closes at the very end and checks nothing after; the failing interleavings need a close between two steps of the receive routine.",
  ["network/peer.go", "network/socket.go"], [("peer.close under mutex", "network/peer.go"), ("socket.Close", "network/socket.go")],
  state=[("sink", "callback target, cleared on close", "network/peer.go")], observe=["ISocketSink.OnClosed", "net.Conn.Close"])
p("N04", "A connection lost to the other side is reported once",
  "When the remote side closes the connection or the connection fails, the sink is told so exactly once, after all packets completely received before that have been delivered, and the local end of the connection is closed; other connections of the socket keep working.",
  ["fault_sequences", "schedules"], "every point in the packet stream at which the connection ends, with one or more peers",
  "no test observes a remote disconnect.",
  ["network/peer.go"], [("recv routine error path", "network/peer.go:run")], observe=["ISocketSink.OnClosed"])
p("N05", "Serializer registration and socket creation are safe concurrently",
  "Several goroutines may register serializers and create, listen on or dial sockets at the same time without a crash or data race, and each socket uses the serializer registered under the name it was created with.",
  ["schedules"], "every interleaving of registrations and socket creations within the bounds",
  "the suite runs with a single processor because this crashes in about 2% of runs on several (see BASELINE notes).",
  ["network/API.go", "network/inet.go"], [("serializers table", "network/API.go")], observe=["network.ExtendSerializer", "network.NewSocket"])
p("N06", "Each connection is announced before its traffic and attributed to it",
  "For every accepted or dialled connection the sink gets exactly one connected notification before any packet from it; every packet and close notification carries the same peer object as the announcement, with the connection's own addresses, and a peer is marked as own exactly when it was dialled.",
  ["schedules", "inputs"], "every interleaving of up to three connections and their first packets",
  "tests have one connection and ignore the peer argument.",
  ["network/socket.go", "network/peer.go"], [("OnConnected before run", "network/socket.go:Listen/Dial")], observe=["ISocketSink", "IPeer"])
p("N07", "The mock network carries bytes faithfully",
  "With the mock network selected, a dialled and accepted pair of connections delivers in each direction exactly the bytes written, in order, regardless of write and read sizes, until one side closes, after which the other side's reads report the end.",
  ["inputs", "histories"], "every write/read size pattern within the bound",
  "tests send a handful of short strings, far below the receive buffer.",
  ["network/mock.go"], [("conn.Read/Write over a channel", "network/mock.go")], observe=["network.Mock", "ISocket"])

# ---------------------------------------------------------------- ferry
p("F01", "A remote call behaves like the local call",
  "Calling a feature's method in another dock executes exactly the named method of the named feature with arguments equal in value to those passed and returns results equal in value to what the method returned, just as the same call does within one dock; a call without result and a call with results behave alike.",
  ["inputs", "configurations"], "every argument and result value of the supported kinds, string contents within the bound, caller and callee in the same or different docks",
  "the tests call Add(1,2) and Log(\"Hello Ferry!\") once each.",
  ["dock.go", "rpc.go", "protocol.go", "serializer.go", "codec/encoder.go", "codec/decoder.go", "chancall/meta.go"],
  [("RPC request/response messages", "protocol.go"), ("dispatch on the callee's dock", "dock.go:OnPacket cRpcRequest")], observe=["ISlot.Call/CallWithResult"])
p("F02", "Malformed traffic never takes a process down",
  "Whatever bytes a peer sends to a hub or a dock, the process neither panics nor exits: a malformed packet is dropped (or its connection is), and well-formed traffic on other connections is served as before.",
  ["inputs", "fault_sequences"], "every packet body up to the length bound for every message kind, and every frame header",
  "tests only exchange well-formed packets.",
  ["serializer.go", "protocol.go", "hub.go", "dock.go", "network/peer.go"], [("Unmarshal", "serializer.go"), ("proto Unmarshal", "protocol.go")], observe=["hub and dock connections"])
p("F03", "The hub hands out distinct, allowed ports",
  "For docks registering from the same host the hub never hands out the same port twice, never hands out a blacklisted port, and only hands out ports from 20001 to 49000, for any set of blacklisted ports and any sequence of registrations; each registering dock is answered with exactly one port.",
  ["inputs", "histories", "schedules"], "every blacklist content and every registration history within the bound",
  "tests register three docks with an empty blacklist.",
  ["hub.go"], [("allocate", "hub.go")], state=[("assignPorts", "last port per host", "hub.go")], observe=["register responses"])
p("F04", "The hub answers queries with the newest ready provider",
  "A query for a feature is answered exactly once and with the address of the most recently registered dock that provides exactly that feature and has reported itself ready for it; a query that arrives before any such dock exists is answered once one becomes ready, and a dock that is not ready is never given out.",
  ["histories", "inputs"], "every history of registrations, ready reports and queries within the bound, arbitrary feature names",
  "tests have one provider per feature and no history.",
  ["hub.go"], [("docks table and back-to-front scan", "hub.go:OnPacket cQueryRequest")], observe=["query responses"])
p("F05", "The advertised dock address is where that dock listens",
  "The address the hub gives out for a dock is the host part of the address the dock connected from joined with the port the hub assigned to that dock, in a form that can be dialled, for every IPv4 and IPv6 peer address; the dock listens on exactly the port it was assigned.",
  ["inputs", "configurations"], "every textual peer address of either family within the bound",
  "tests run on the mock network, which fakes every address as 0.0.0.0.",
  ["hub.go", "dock.go"], [("pickIP and address formatting", "hub.go"), ("listen address", "dock.go:OnPacket cRegisterResponse")], observe=["query responses", "net.Listen address"])
p("F06", "Concurrent remote calls each receive their own response",
  "When several remote calls are in flight at once, in any order of responses, at any clock readings and including duplicated or unsolicited responses, every call returns exactly the response that answers its own request and none is lost, mixed up or crashes the process.",
  ["schedules", "inputs", "fault_sequences"], "every clock reading sequence, response order and interleaving of up to three calls within the bounds",
  "tests have one remote call in flight at a time.",
  ["rpc.go", "dock.go"], [("rpc index", "rpc.go:newRpc"), ("pending table", "dock.go rpcs")],
  state=[("rpcs", "calls awaiting a response", "dock.go")], observe=["ISlot.CallWithResult"])
p("F07", "A remote call is sent exactly once, whenever its provider is discovered",
  "A call to a feature that is not yet known is held until the provider is discovered and then sent exactly once, whatever the order in which discovery messages, readiness messages and the call itself are processed; a call to a known feature is sent at once to the dock that announced it.",
  ["schedules", "histories"], "every order and interleaving of the discovery messages and the call within the bounds",
  "tests see the one order the scheduler happens to produce.",
  ["dock.go", "rpc.go"], [("commit", "dock.go"), ("pending request cleared on send", "dock.go:commit")], observe=["packets to the provider"])
p("F08", "Discovery requests always go to the hub",
  "From the moment a dock connects, every request it makes to locate a feature is sent on its connection to the hub, and no feature is started before the dock has registered, is listening on its assigned port and has reported ready, however fast the hub answers.",
  ["schedules"], "every interleaving of connection setup with the hub's first answers",
  "the failing order needs the hub's answer to be processed before the connecting goroutine resumes.",
  ["dock.go"], [("run", "dock.go"), ("sockets[0]", "dock.go:commit")], observe=["packets to the hub"])
p("F09", "Only discoverable features are announced",
  "The feature names a dock announces to the hub and to other docks are exactly the names of the features it carries as discoverable, each once; features carried as not discoverable are never announced but can be called from within their own dock.",
  ["configurations"], "every combination of discoverable flags and names within the bound",
  "every feature in the tests is discoverable.",
  ["dock.go", "slot.go"], [("collect", "dock.go")], observe=["register and ready messages", "ISlot.Call"])
p("F10", "Features are started and destroyed exactly once",
  "Every feature of a dock is started exactly once after its dock has registered, is given its own slot, and is destroyed exactly once when the framework is closed; closing several hubs and docks closes each of them.",
  ["schedules", "configurations"], "every interleaving of starting and closing up to two docks within the bounds",
  "no test observes OnDestroy, and instances are recorded by unsynchronised appends.",
  ["dock.go", "runtime.go", "ferry.go"], [("start/Close", "dock.go"), ("instance list", "runtime.go")], observe=["IFeature.OnStart/OnDestroy"])
p("F11", "Visiting a feature yields its registered proxy",
  "Visit returns the object made by the maker registered under that name for the visiting slot, makes it at most once per slot and name and returns the same object on every later visit; the last registration of a name wins, and a name that was never registered yields nil.",
  ["histories", "inputs"], "every history of registrations and visits within the bound, arbitrary names",
  "no test visits a feature.",
  ["slot.go", "registry.go"], [("visiters cache", "slot.go:Visit"), ("registry", "registry.go")], observe=["ISlot.Visit", "ferry.Register"])
p("F12", "Remote failures come back as errors with their cause",
  "When a remote call fails on the other side because the method timed out, is unknown, does not accept the arguments, or the feature does not exist there, the caller receives an error carrying the cause's text and no results; a call that succeeded never returns an error.",
  ["inputs", "fault_sequences"], "every failure cause and error text within the bound",
  "no test makes a failing remote call.",
  ["dock.go", "protocol.go"], [("error text in the response", "dock.go:OnPacket cRpcRequest/cRpcResponse")], observe=["ISlot.Call/CallWithResult"])
p("T01", "Generated proxies compile and forward calls faithfully",
  "For every Go source tree the generator accepts, it produces one proxy per exported feature interface whose methods forward name, arguments and results of the interface's methods unchanged, and the generated file compiles.",
  ["programs"], "every feature interface declaration the parser accepts",
  "there is no test of the generator.",
  ["tool/ferry.gen.go"], [("parseFile and the code template", "tool/ferry.gen.go")], observe=["proxy.gen.go"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
