# ----------------------------------------------------------------- client session
prop("C01", "A client owns at most one live target connection and always releases it",
 "Connect succeeds only from the disconnected state and only after the session and the CIP connection were both granted; a Connect that fails, and every Disconnect of a connected client, leave the client disconnected with its network connection closed, and the client can then connect again. "
 "A transport failure during any request also ends disconnected and closed, repeated Connect/Disconnect calls return an error and change nothing, and Connected() always tells the truth.",
 ["histories", "fault_sequences", "schedules"],
 "every sequence (and interleaving) of Connect, Disconnect, Connected and tag operations, with a target that refuses, rejects, stays silent or hangs up at any step of session registration, connection opening, data exchange or closing",
 "tests need a PLC or use one hand-written happy server; none drives a fault into each phase of connect/disconnect or checks what is left open afterwards",
 ["connect.go", "disconnect.go", "sendreceive.go", "client.go"],
 [("connStatus", "disconnected/connecting/connected/disconnecting", "client.go Client"), ("conn", "the TCP connection", "client.go Client")],
 [("startConnect/startDisconnect", "status transition under the client mutex"), ("Connect", "connect.go"), ("Disconnect", "disconnect.go"), ("send_recv_data", "forced disconnect on transport error")],
 ["return values of Connect/Disconnect/Connected and operations", "TCP accepts and closes and the EIP requests seen by the target"])

prop("C02", "A call only ever returns the reply to its own request",
 "Every value or status an operation returns comes from the target's reply to a request that this very call sent, however many goroutines share the client and however late, lost or cut short replies are; when that reply is not obtained the call returns an error. "
 "Requests of concurrent calls are never interleaved on the wire and a new request is never sent while an earlier one on the same network connection is still unanswered.",
 ["schedules", "fault_sequences", "histories"],
 "every interleaving of concurrent operations on one client and every pattern of delayed, dropped or truncated replies and hang-ups",
 "tests use one goroutine and a target that answers at once; mispairing needs a late reply plus a second caller",
 ["sendreceive.go", "read.go", "write.go", "getattr.go", "disconnect.go"],
 [("conn byte stream", "requests out, replies in", "client.go Client.conn")],
 [("client mutex held across send and receive", "sendreceive.go send_recv_data")],
 ["values returned to each caller", "order of requests and replies at the target"])

prop("C03", "Consecutive connected requests never carry the same sequence count",
 "On one CIP connection two consecutive connected requests never carry the same 16-bit sequence count, whatever mix of operations, fragments, message splits, retries and concurrent callers produced them (a target that sees the count repeat answers with the previous reply).",
 ["histories", "schedules"],
 "every sequence of client operations of every kind, at every position of the sequence counters including wrap-around",
 "a collision needs two particular operations at a particular counter alignment; tests never look at two consecutive requests",
 ["client.go", "getattr.go", "read.go", "partialread.go", "write.go", "datatable.go", "listsubtags.go", "listalltags.go", "listmembers.go"],
 [("sequenceValue", "global request counter", "client.go"), ("sequenceNumber", "per-client counter", "client.go Client")],
 [("sequencer()", "client.go")],
 ["sequence count field of every connected request received by the target"])

prop("C04", "Every request carries the current session's and connection's identity",
 "Each request after registration carries the session handle granted to that network connection and each connected request the connection id granted by that connection's open; opening tries the large form first when the configured size needs it, falls back to the standard form with a size of at most 511 bytes when refused, and closing names exactly the serial number, vendor and originator with which the connection was opened.",
 ["histories", "configurations", "fault_sequences"],
 "every sequence of connects, operations, failures and reconnects, every value the target may grant and every configured connection size",
 "tests only check single message layouts, never the identifiers across a reconnect or fallback",
 ["connect.go", "disconnect.go", "sendreceive.go", "read.go", "write.go", "getattr.go"],
 [("SessionHandle", "handle granted by registration", "client.go Client"), ("OTNetworkConnectionID", "id granted by forward open", "client.go Client"), ("ConnectionSerialNumber", "serial offered at open", "client.go Client")],
 [("newEIPHeader", "sendreceive.go"), ("forwardOpen", "connect.go"), ("Disconnect", "disconnect.go")],
 ["every EIP request received by the target"])

prop("C05", "Keepalive polls only while wanted and never crashes the program",
 "While a connected client has keepalive enabled it polls the target at the configured period; a failed periodic poll disconnects the client, and after the client disconnects or keepalive is cancelled no further poll is sent until it is started again. "
 "No order or number of start, cancel, disconnect and reconnect calls panics, and reconnecting a client configured for automatic keepalive resumes polling.",
 ["histories", "schedules", "fault_sequences"],
 "every sequence of Connect, KeepAlive, KeepAliveCancel, Disconnect and reconnect, with poll failures and target changes at any poll",
 "keepalive has no test at all; its failures need particular call orders",
 ["connect.go", "disconnect.go"],
 [("keepAliveRunning", "a poller is active", "client.go Client"), ("cancel_keepalive", "stop channel", "client.go Client"), ("KeepAliveAutoStart", "configuration", "client.go Client")],
 [("KeepAlive", "connect.go"), ("KeepAliveCancel", "disconnect.go"), ("Disconnect", "disconnect.go")],
 ["polls received by the target over time", "process survival", "Connected()"])

# ----------------------------------------------------------------- client data plane
prop("C06", "A fragmented read returns exactly the whole value or an error",
 "However the target splits the answer to a tag read into partial transfers, the read returns exactly the stored elements, asking for each continuation at the byte offset already received and for the same tag and element count; any error status, missing data, transport fault or continuation without progress makes the read return an error, and every read terminates.",
 ["inputs", "fault_sequences"],
 "every element type and count, every way of cutting the data into fragments (also inside an element) and every status or fault at any fragment",
 "tests try a few hand-picked splits; boundaries inside elements, no-progress fragments and late errors are not sampled",
 ["read.go"],
 [("accumulated", "bytes received so far", "read.go readFragmented")],
 [("readFragmented", "read.go"), ("sendFragReadRequest", "read.go"), ("Read_single", "read.go")],
 ["returned value or error", "read and continuation requests at the target"])

prop("C07", "A multi-tag read gives every requested tag its own value",
 "Reading many tags in one call (list, map, tagged struct or tag group) asks the target for each tag with its own path and element count and returns for each tag exactly the value the target holds for it, in request order or under its own name, no matter how many messages the call is split into; if any tag fails the call returns an error.",
 ["inputs", "configurations", "fault_sequences"],
 "every list of tags (mixed types, lengths, arrays, strings, duplicates), every connection size (hence every split) and every failing tag",
 "tests compare single hand-built messages; alignment across split points and duplicates is never exercised",
 ["read.go", "partialread.go", "taggroup.go", "taggroup_readmap.go"],
 [("tag list / result list", "requested tags and their values", "read.go readList")],
 [("readList", "read.go"), ("countIOIsThatFit", "partialread.go"), ("ReadMap/ReadMulti/ReadList/ReadTagGroup", "read.go, partialread.go, taggroup_readmap.go")],
 ["values returned", "multi-service requests at the target"])

prop("C08", "A write reports success exactly when the target stored it",
 "A write call (single, map or struct) sends each tag's value at most once, to that tag's path with the right type and element count, and returns nil only if the target acknowledged every one of them; if the target rejects or does not answer any of them the call returns an error.",
 ["inputs", "fault_sequences"],
 "every value type, array length and set of tags, and every status the target may answer for any of them",
 "tests check encoded bytes of requests; no test answers a write with a failure status or loses the reply",
 ["write.go", "udt_write.go"],
 [("acknowledgement", "status in the write reply", "write.go")],
 [("write_single/write_udt", "write.go"), ("WriteMap/WriteMulti", "udt_write.go")],
 ["return value of the write", "writes received by the target"])

prop("C09", "Bad or malformed replies become errors, never wrong data or a crash",
 "If the reply to an operation carries a non-zero encapsulation or CIP status, or is truncated or inconsistent, the operation returns an error, does not change the caller's destination variable and does not panic or hang, and the client stays usable.",
 ["fault_sequences", "inputs"],
 "every client operation, every status code and every mutilation (cut, altered length, count or offset) of the reply at any position",
 "tests feed well-formed replies; the error space per operation is never enumerated",
 ["read.go", "write.go", "udt_write.go", "getattr.go", "partialread.go", "listalltags.go", "listsubtags.go", "listmembers.go", "datatable.go", "items.go", "connect.go"],
 [("reply header status fields", "EIP status, CIP general status, item lengths", "messages.go")],
 [("per-operation reply parsing", "read.go, write.go, getattr.go, list*.go, datatable.go"), ("readItems", "items.go")],
 ["returned error", "destination variables", "process survival"])

prop("C10", "Listing tags finds every tag once, however the target paginates",
 "Listing all tags ends with the client knowing exactly the controller and program tags the target publishes (system-reserved names excluded), each with its own instance, type and dimensions, for every way the target cuts the list into pages, and with nothing left from an earlier listing that the target no longer publishes; listing one program returns all of that program's tags. "
 "Listing always terminates, a failed page makes the listing return an error, and listings at the same time (by several goroutines or a keepalive) disturb neither each other nor reads.",
 ["inputs", "configurations", "fault_sequences"],
 "every set of tags and programs, every page boundary, hidden entries anywhere (also whole pages of them) and an error at any page",
 "no test lists tags; page boundaries decide completeness and termination",
 ["listalltags.go", "listallprograms.go", "listsubtags.go"],
 [("KnownTags/KnownPrograms", "what the client knows", "client.go Client"), ("start_instance", "next page", "listalltags.go, listsubtags.go")],
 [("ListAllTags", "listalltags.go"), ("ListAllPrograms", "listallprograms.go"), ("ListSubTags", "listsubtags.go")],
 ["the client's known tags and programs", "list requests at the target"])

prop("C11", "Listing a structure type yields its complete, correctly typed member tree",
 "Listing a template returns the name and every member (name, type, array length, offset) the target defines, with nested structures resolved recursively, for every acyclic nesting; each template is fetched from the target at most once per listing, and an error on the listed template itself is reported.",
 ["inputs", "configurations"],
 "every acyclic graph of templates (shared and nested members, arrays, bit members, hidden host members), at every definition size",
 "no test lists templates; the recursion and the sharing of fetched templates are never exercised",
 ["listmembers.go", "listalltags.go"],
 [("KnownTypesByID", "templates already fetched", "client.go Client")],
 [("ListMembers", "listmembers.go"), ("GetTemplateInstanceAttr", "listmembers.go")],
 ["returned descriptor tree", "template requests at the target"])

prop("C12", "A data-table buffer reads back every added tag under its own name",
 "After any sequence of adding (singly, in bulk, as group, array or struct), syncing, reading and removing tags, a read of the buffer returns for exactly the tags currently in it the value the target holds for each, under that tag's name; a target error or a malformed buffer makes the call return an error and leaves the mapping usable.",
 ["histories", "inputs", "fault_sequences"],
 "every history of add, sync, remove, read and close calls with every type, array expansion and target-assigned index, and rejected requests anywhere",
 "tests cover decoding helpers only; index reuse after removal and partial sync need multi-step histories against a stateful target",
 ["datatable.go", "taggroup.go"],
 [("tags", "name, type, size, index of each entry", "datatable.go DataTableBuffer"), ("expansions", "array elements grouped under one name", "datatable.go DataTableBuffer")],
 [("SyncTags/AddTags/ReadAll/RemoveTag", "datatable.go")],
 ["values returned by reads", "buffer requests at the target"])

prop("C13", "No request or solicited reply exceeds the negotiated connection size",
 "Multi-tag reads and writes are split so that each connected request fits the connection size granted by the target and the replies it asks for fit it too (a single tag that alone exceeds it, and replies for tags whose type the caller leaves open, excepted), and splitting never drops, duplicates or reorders tags.",
 ["inputs", "configurations"],
 "every number, name length, type and count of tags against every connection size from small standard to large",
 "an overflow appears only at particular name lengths and sizes, which tests do not enumerate",
 ["partialread.go", "read.go", "udt_write.go"],
 [("ConnectionSize", "negotiated size", "client.go Client")],
 [("countIOIsThatFit", "partialread.go"), ("readList", "read.go"), ("WriteMap", "udt_write.go")],
 ["length of each connected request and of the reply it solicits"])

prop("C14", "A tag path addresses the same element, member and bit everywhere",
 "A path written as name, member, array index list or bit number makes the client request exactly that symbolic name, those indices in that order and that element, case-insensitively, and a bit read returns exactly that bit of the addressed value; using cached paths or listed tags never changes what is addressed.",
 ["inputs", "histories"],
 "every combination of members, 1 to 3 dimensions, index magnitudes (8, 16 and 32 bit), bit numbers, letter case and repetition of the same path in different operations",
 "tests pin a few encodings; index-size boundaries, caches and bit positions are not combined",
 ["ioi.go", "read.go", "types.go", "client.go"],
 [("ioi_cache", "encoded paths", "client.go Client"), ("KnownTags", "instances of listed tags", "client.go Client")],
 [("newIOI", "ioi.go"), ("getBit", "types.go")],
 ["request path at the target", "returned value"])

# ----------------------------------------------------------------- server
prop("C15", "A client that polls tags knows the tags the controller has now",
 "With KeepAlivePollTags, a connected client lists the controller's tags once when keepalive begins and once after every poll whose properties differ from those of the poll before, and at no other time; so once the controller has not changed for a few polls the client knows exactly the tags there are, tags which moved are read at their new place, and tags which did not change are read correctly all the while. Without KeepAlivePollTags keepalive never lists. Polls ask for exactly the properties configured. Two property lists read with GetControllerPropList match exactly if no property changed in between.",
 ["histories", "schedules"],
 "every sequence of changes of the controller's tags and properties before, between and during polls and the pages of a listing, over reconnects, with other goroutines reading",
 "no test runs keepalive against a controller that changes",
 ["connect.go", "client.go", "listalltags.go", "getattr.go"],
 [("originalProps", "the properties the last poll showed", "connect.go keepAlive"), ("KnownTags", "the tags known", "client.go Client"), ("KeepAlivePollTags", "whether tags are polled", "client.go Client")],
 [("keepAlive", "connect.go"), ("forgetKnown", "listalltags.go")],
 ["polls and listing requests at the target", "KnownTags", "values read"])

prop("S01", "The server answers every well-formed request exactly once, to the asker",
 "For every well-formed request on a session the server sends exactly one reply on that session, in request order, echoing the sender context, session handle, service (as a response) and, for connected requests, the sequence count and the target-to-originator id of the connection the request named; requests it cannot satisfy get a reply with a non-zero status and the session stays open.",
 ["histories", "inputs", "schedules"],
 "every sequence and pipelining of supported and unsupported, connected and unconnected requests over several sessions and several connections per session",
 "tests check a single reply of a single connection; echo fields across several connections and error replies are not enumerated",
 ["server.go", "server_connected.go", "server_unconnected.go", "server_listidentity.go"],
 [("handle/context", "session identity", "server.go serverTCPHandler"), ("OT/TO ids", "connection identity", "server_connections.go serverConnection")],
 [("serve loop and dispatch", "server.go"), ("send* helpers", "server.go, server_connected.go, server_unconnected.go")],
 ["frames returned to each raw session"])

prop("S02", "Opening, routing and closing connections affects only the named connection",
 "After a successful open, whose reply repeats the connection's identifiers and grants the packet intervals asked for, requests naming that connection reach the provider registered for its route path and no other; a close ends exactly the connection it names (by serial, vendor and originator), acknowledged, after which requests and I/O on it are refused while all other connections, of this and other originators, keep working.",
 ["histories", "schedules"],
 "every sequence of opens, closes and requests from several originators over several sessions and route paths",
 "tests open one connection; scoping needs several originators, serial reuse and interleaved closes",
 ["server.go", "server_connections.go", "server_router.go"],
 [("Connections", "open connections", "server_connections.go serverConnectionManager")],
 [("forwardOpen/largeForwardOpen/forwardClose", "server.go"), ("GetByOT/CloseByID", "server_connections.go"), ("Resolve", "server_router.go")],
 ["replies to the sessions", "provider calls", "I/O packets"])

prop("S03", "The server's map tag store behaves as one atomic tag table",
 "Reads and writes by any number of sessions, by every service that can carry them, act on the built-in tag store one at a time: a read returns the last value written to that tag or element (names are case-insensitive), a write changes exactly the addressed tag or elements and keeps an array's element type, and a failed operation changes nothing.",
 ["histories", "schedules", "inputs"],
 "every history and interleaving of scalar, array, element, string, multi-service and attribute reads and writes over several sessions",
 "tests write and read one tag from one client; element ranges, conversions and interleavings are not covered",
 ["server_router.go", "server_connected.go", "server_unconnected.go"],
 [("Data", "tag name to value", "server_router.go MapTagProvider")],
 [("TagRead/TagWrite under Mutex", "server_router.go"), ("parseWriteValues", "server_connected.go")],
 ["values read back through any service", "write statuses"])

prop("S04", "Malformed traffic hurts only its own sender",
 "Whatever bytes a peer sends over TCP or UDP, in any framing, the server process survives, every other session's requests keep being answered correctly, the tag store changes only through valid writes, and new sessions are still accepted.",
 ["inputs", "fault_sequences", "schedules"],
 "every truncation and field mutation (sizes, counts, offsets, path segments, element counts) of every request kind, hang-ups at any byte, and arbitrary UDP datagrams",
 "tests send only well-formed messages; a single unchecked length can end the process",
 ["server.go", "server_connected.go", "server_unconnected.go", "server_router.go", "ioi.go", "items.go"],
 [("server process", "all sessions share it", "server.go Server")],
 [("per-session goroutine", "server.go serveTCP"), ("length checks in parsing", "server_*.go, ioi.go")],
 ["process liveness", "replies on a witness session", "tag store content"])

prop("S05", "Class-1 I/O flows to and from exactly the connection's provider",
 "While an I/O connection is open the server sends its provider's current input data once per requested interval (leaving out those at which the provider has none) to the originator with that connection's id and increasing sequence numbers; each output packet is delivered, intact, to the provider of the connection it names and to all of its subscribers, packets naming no open connection are ignored, and closing the connection stops the traffic.",
 ["histories", "schedules"],
 "every set of concurrently open I/O connections and every sequence of input updates, output packets, slow subscribers and closes",
 "no test opens an I/O connection",
 ["server.go", "server_io.go", "server_iochannel.go"],
 [("In/Out", "current images", "server_io.go IOProvider"), ("outChannels", "subscribers", "server_iochannel.go IOChannelProvider")],
 [("ioConnection", "server.go"), ("serveUDP", "server.go"), ("IOWrite/IORead", "server_io.go, server_iochannel.go")],
 ["UDP packets", "provider calls and channel deliveries"])

prop("S06", "Published symbols and attribute instances agree with the tag store",
 "The symbol list the server publishes contains every tag of the addressed provider exactly once with its type, numbered from 1 in alphabetical order, from the instance asked for onwards; reading or writing attribute instance n through the attribute bridge reads or writes exactly the n-th of these tags, before and after tags are added.",
 ["histories", "inputs"],
 "every tag set and every interleaving of tag creation, writes, symbol listing and attribute access, all instances including out of range",
 "tests do not list symbols through the server nor relate the numbering to attribute access",
 ["server.go", "server_unconnected.go", "server_router.go"],
 [("Data", "tags", "server_router.go MapTagProvider")],
 [("buildSymbolObjectInstanceListResponse", "server_unconnected.go"), ("resolveSymbolicTagFromCustomClass", "server_unconnected.go")],
 ["symbol list replies", "attribute replies", "tag store content"])

prop("S07", "All identity queries tell the same story",
 "Identity data (vendor, device type, product code, revision, status, serial, product name) reported by discovery, by get-all and by get-single, connected or unconnected, is the same configured identity, for every configured value, and unknown classes, instances or attributes are refused with a status.",
 ["configurations", "inputs"],
 "every identity configuration (extreme numbers, empty to over-long names), every query form and every class, instance and attribute number",
 "tests check individual encoders with one configuration; agreement between the query forms is not checked",
 ["server.go", "server_unconnected.go", "server_connected.go", "server_listidentity.go"],
 [("Attributes", "configured identity", "server.go Server")],
 [("buildListIdentityItemBody", "server_listidentity.go"), ("buildIdentityGetAttributesAllResponse", "server_unconnected.go"), ("getAttrSingle", "server_connected.go")],
 ["replies to identity queries"])

# ----------------------------------------------------------------- objects
prop("A01", "A message to an object names exactly that object and returns its answer whole",
 "A generic message, an attribute read (single, list, controller properties, force or fault status) and a discovery request of a connected client reach the device once, with exactly the service, the class, instance and attribute numbers (or symbols and elements) and the data that the caller gave, for every value; they return exactly the data of the device's answer, which the returned item then yields value by value without skipping or repeating a byte and ends with an error when nothing is left, or an error (for a generic message one that carries the device's status); a path that the request cannot express is refused without sending anything.",
 ["inputs", "histories"],
 "every object address of every number width, every service, data, status and length of path, and every order in which an answer is read",
 "tests decode a few canned answers and need real hardware for the requests; the request bytes depend on the width of every number",
 ["getattr.go", "cip_definitions.go", "items.go", "listidentity.go", "listservices.go", "path.go", "canned/faults.go", "canned/forces.go"],
 [("item", "the answer and how far it was read", "items.go CIPItem")],
 [("GenericCIPMessage/GetAttrSingle/GetAttrList", "getattr.go"), ("ListIdentity", "listidentity.go"), ("ListServices", "listservices.go"), ("reading an item", "items.go")],
 ["requests the device receives", "returned items and errors", "values read from an item"])

# ----------------------------------------------------------------- end to end and codec
prop("E01", "What one client writes through the server every client reads back",
 "Through this library's client and server, a value successfully written to a tag or array is read back equal, by the writer and by any other connected client, through single, multi and struct reads alike, for every supported scalar, array and string type, until the next write to it.",
 ["histories", "inputs"],
 "every history of writes and reads by several clients over every supported type, array length, connection size and read or write form",
 "tests do one string round trip; the product of types, forms and lengths is not covered",
 ["read.go", "write.go", "udt_write.go", "server_connected.go", "server_router.go", "items.go", "types.go"],
 [("tag store", "server's values", "server_router.go MapTagProvider")],
 [("client encode/decode", "read.go, write.go, items.go"), ("server encode/decode", "server_connected.go")],
 ["values returned by client reads"])

prop("K01", "Structures are packed and unpacked in the controller's memory layout",
 "Packing a struct places every field at the offset the controller's layout rules give it (natural alignment, runs of booleans sharing hidden host bytes, nested structs and every element of an array of structs starting at the alignment of their widest member), and unpacking the packed bytes yields the same struct again, for every struct shape.",
 ["inputs", "programs"],
 "every struct shape built from boolean runs, integers of each width, floats, arrays and nested structs up to the bound",
 "tests cover a few fixed structs; padding depends on the whole prefix of fields",
 ["pack.go"],
 [("position and bit position", "where the next field goes", "pack.go Pack/Unpack")],
 [("Pack/Unpack", "pack.go"), ("Align", "pack.go")],
 ["packed bytes", "unpacked values"])

prop("K02", "A route path text denotes one byte route and the router honours it",
 "Parsing a comma separated route path or building it step by step yields the same port, slot and address segments in the given order, padded to whole words; malformed text is rejected with an error, and a server provider registered under the resulting bytes is the one reached by a client configured with that path.",
 ["inputs", "configurations"],
 "every sequence of ports, slots and network addresses of every length, and malformed variants",
 "tests pin a few paths; padding depends on address length and segment order",
 ["path.go", "server_router.go", "cip_definitions.go"],
 [("path bytes", "encoded route", "path.go")],
 [("ParsePath/PathBuilder", "path.go"), ("Resolve", "server_router.go")],
 ["encoded bytes", "provider reached"])

prop("K03", "A structure is written under the number that the controller gives to its type",
 "Naming a structure type gives the text the controller makes of it - the type's name, then in order the controller's names of its signed and unsigned (two bytes and wider) integers and floats, one SINT for every hidden byte that its runs of booleans occupy in memory, nested and predefined structures written out in place, array lengths in brackets - and the CRC-16 of that text as its number (timers, counters, controls and strings have their published numbers), for every declared structure of such fields; and writing a value of it, on its own or together with others, sends that number, one element and the bytes of its memory layout. Arrays of booleans and single-byte unsigned members are left open.",
 ["programs", "inputs"],
 "every declared structure of booleans, numbers, predefined and nested structures and arrays of these, in every order",
 "tests pin a few fixed structures; whether a run of booleans needs another hidden byte depends on everything before it",
 ["pack.go", "write.go", "udt_write.go", "lgxtypes/"],
 [("open hidden byte", "whether a boolean joins the byte before it", "pack.go TypeEncode bitpos")],
 [("TypeEncode", "pack.go"), ("write_udt/writeRequest", "write.go, udt_write.go"), ("TypeAbbr", "lgxtypes/")],
 ["text and number returned", "structure write requests on the wire"])

# ----------------------------------------------------------------- project files
prop("L01", "Loading a project file gives the values and comments that the file states",
 "Loading the tags of a project file gives every controller scoped atomic tag and every program scoped tag of an atomic type, a structure of atomic members or a one-dimensional array exactly the value that the file states for it (in whatever base it is displayed, with the type's width and sign), under its own name, in its own program, the elements of arrays in order and the members of structures by name, and gives no tag a value that the file states for another. "
 "Loading comments gives exactly the comments of module points, described controller tags and rungs, each under its own place, and for the members of a controller tag of a type that the file defines the comments of the tag, the types and the members on the way to it, in this order. "
 "The result does not depend on which optional parts and data formats the export includes, and loading again gives the same.",
 ["inputs", "configurations"],
 "every project built from tags of each type and shape in controller and program scope, every displayed base and edge value, every combination of exported parts, comments, tasks and programs",
 "the one test loads one exported file and does not look at a value; wrong values, scopes or bases go unnoticed",
 ["l5x/load_tags.go", "l5x/types.go", "l5x/schema.go"],
 [("tags loaded", "names and values by scope", "l5x/load_tags.go LoadTags"), ("comments loaded", "places and texts", "l5x/load_tags.go LoadTagComments/LoadRungComments")],
 [("LoadTags/LoadTagComments/LoadRungComments", "l5x/load_tags.go"), ("L5xTypeToGoType", "l5x/types.go")],
 ["maps returned by the loaders"])
