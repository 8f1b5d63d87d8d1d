#!/usr/bin/env python3
# Source of properties.jsonl (kept as data so that the JSON stays well-formed).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over.split(),text=text),why_tests_cant=why,
      anchors=dict(files=files.split(),
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(obs),hook_needed=hook)))

p("C01","Frames survive the wire unchanged",
"A frame written with any request id, any 24-bit command, any flags and any payload appears on the connection as 4-byte big-endian length (of everything after it), 8-byte id, 1-byte flags, 3-byte command, payload, and nothing else. The receiving side hands its application exactly that id, flags, command and payload, however the transport cuts the byte stream into reads. A writer that is reused, abandoned in the middle of a frame, or recycled after an error never leaks bytes of an earlier frame into a later one, and a plain Request is never sent as a stream and a StreamRequest always is, whatever flags the caller gives.",
"inputs histories schedules","all flag bytes, boundary commands/ids/payload sizes (empty, 1, around the read-buffer and pooled-buffer sizes), all segmentations into reads of a frame sequence up to the bound, all writer-use sequences up to depth 4",
"tests send one short payload with flags 0 and NB over loopback, never split reads, never abandon a frame, and compare only the payload",
"framewriter.go framereader.go reader.go frame.go qrpc.go doc/frame.md",
[("header layout","framewriter.go:StartWrite/endWrite"),("readFrame","framereader.go:readFrame"),("writer pool","framewriter.go:newFrameWriter/Finalize")],
[("wbuf","frame being built, 16-byte header then payload","framewriter.go"),("rbuf","header being parsed","framereader.go")],
["bytes written to net.Conn","frame seen by handler / Response / subscriber"])
p("C02","Bad input only ends its own connection",
"A peer that sends a frame shorter than the fixed header, larger than the configured maximum, undecodable by the codec, or cut off by disconnection at any byte gets that connection closed, and the offending frame is never delivered. A frame of exactly the maximum size is accepted. No byte sequence a peer can send crashes the process, stalls the server or disturbs another connection.",
"inputs histories fault_sequences","every sequence up to length 4 of frames from an alphabet of valid, truncated, oversize, undersize, reset, repeated-id and stream frames, with disconnection after every byte of the last frame",
"tests only use well-behaved clients; nothing sends a malformed or protocol-violating frame",
"framereader.go serveconn.go clientconn.go stream.go",
[("size checks","framereader.go:readFrame"),("close on read error","serveconn.go:readFrames"),("stream state machine tolerates any frame","stream.go")],
[("maxFrameSize","limit per binding","framereader.go")],["peer's view of the connection","handler invocations","process liveness"])
p("C03","Frames of concurrent writers never interleave",
"Whatever number of goroutines write to one connection, whatever the write batching, and however the transport splits, delays or times out individual writes, the bytes on the connection are always a prefix of a concatenation of complete frames, each one exactly as its writer built it. Frames written one after the other by the same goroutine appear in that order, and no frame appears twice.",
"schedules fault_sequences configurations","all interleavings (within the stated deviation bound) of 2-3 writers x 1-2 frames on server and client connections for batch sizes 0,1,2,3 with partial writes and write timeouts at every write call",
"needs particular interleavings of the queue/lock/batch hand-off and partial socket writes; loopback tests never see a short write",
"serveconn.go clientconn.go writer.go framewriter.go",
[("write queue + write lock","serveconn.go:writeFrameBytes"),("writer goroutine","clientconn.go:writeFrames"),("partial write resume","writer.go:writeBuffers/Write")],
[("cachedRequests/cachedBuffs","current batch","serveconn.go, clientconn.go")],["bytes written to net.Conn"])
p("C04","Write results are truthful and always arrive",
"A write call that reports success has handed its complete frame to the transport exactly once, and a frame the transport rejected is never reported as success. Every write call returns: a write can never block for ever because the connection fails, is closed, is kicked or loses its reader at any point of the write.",
"schedules fault_sequences","all interleavings within the bound of 2-3 writers with a connection close, a kick, a reader failure or a transport write error injected at each write call, batch sizes 0-3, with and without reconnect, TCP and WebSocket transports",
"tests never inject write errors and never close during a write",
"serveconn.go clientconn.go writer.go ws/server/conn.go",
[("result hand-back","serveconn.go:writeFrameBytes/writeBuffers"),("abort on close","clientconn.go:abortRequestsWhenClosed")],
[("writeFrameRequest.result","outcome of one queued frame","serveconn.go")],["return value of EndWrite/Request/ResetFrame","bytes accepted by net.Conn"])
p("C05","Every response reaches exactly its own request",
"When several requests are outstanding on a connection, each caller receives the response frame that carries its own request id, once, and never a frame meant for another request, whatever order the peer answers in and however requests, answers and batches interleave. Request ids on a connection are never reused while a request is outstanding.",
"schedules histories","all interleavings within the bound of 2-3 concurrent callers, and all answer orders, duplicated and unknown ids up to 4 answers",
"throughput tests use one identical payload for all requests, so a swapped answer would go unnoticed, and sample a few schedules",
"clientconn.go serveconn.go",
[("register before write","clientconn.go:writeBuffers"),("lookup and remove","clientconn.go:readFrames")],
[("respes","outstanding requests by id","clientconn.go, serveconn.go")],["Response.GetFrame results"])
p("C06","A waiting caller is always released",
"A caller waiting for a response gets the response, or an error as soon as the peer resets the request or the connection ends, on either side and at any moment relative to the request being sent; with a context it also returns when the context ends. No caller waits for ever.",
"schedules fault_sequences histories","all interleavings within the bound of a request with a peer reset, a handler panic, a local close, a remote close or a context cancellation",
"tests wait only for requests that are answered",
"clientconn.go serveconn.go framereader.go",
[("reset notification","framereader.go:ReadFrame, clientconn.go:readFrames"),("close all waiters","clientconn.go:closeRWC, serveconn.go:closeUntracked")],
[("respes","outstanding requests","clientconn.go")],["Response.GetFrame/GetFrameWithContext return"])
p("C07","Blocking requests are serial, others concurrent",
"On one connection, requests sent without the non-blocking flag are handled one at a time in the order sent: a handler starts only after the handler of the previous blocking request has returned. Requests with the non-blocking flag and streams are handled concurrently: a handler that does not return never delays the others, as long as the frames sent to its stream are taken by it. Every request is handled exactly once.",
"schedules histories configurations","all request sequences up to length 4 over {blocking, non-blocking, stream} with handlers that wait, all interleavings within the bound, read-queue sizes 0-2",
"tests issue one request at a time or only non-blocking ones and never observe handler overlap",
"serveconn.go",
[("read gate","serveconn.go:readFrames"),("dispatch loop","serveconn.go:serve")],
[("readFrameCh/gate","frames on their way to handlers","serveconn.go")],["handler begin/end"])
p("C08","Stream frames arrive complete, in order, in their stream",
"The continuation frames of a stream are delivered to the consumer of that stream, in the order sent, without loss or duplication, followed by an end-of-stream indication, in both directions at the same time. Frames of other streams, requests and pushes on the same connection never appear in it.",
"schedules histories","all interleavings within the bound of 2 streams x 3 frames per direction, and all frame orders of interleaved streams up to 6 frames",
"the one stream test in the suite sends two messages in lock step",
"stream.go framereader.go serveconn.go clientconn.go",
[("AddInFrame hand-off","stream.go:AddInFrame"),("dispatch by id","framereader.go:ReadFrame")],
[("frameCh","continuation frames","stream.go")],["FrameCh contents at handler and caller"])
p("C09","Stream life cycle: no writes after end, clean completion",
"After a side has ended or reset its half of a stream, further writes by that side to that stream fail and put nothing on the wire. When both sides have ended, the stream is finished on both: its context is cancelled, its continuation channel is closed, its state is released and the id can be used again; before that it is not finished. This holds for every order and every interleaving of the two sides' operations.",
"schedules histories","every sequence up to depth 6 of {out, out-end, out-reset, in, in-end, in-reset, release} on one stream against a reference automaton, and all interleavings of reader-side and writer-side operations",
"tests never write after end, never end from both sides at once and never reuse an id",
"stream.go serveconn.go clientconn.go",
[("half-close flags","stream.go:AddOutFrame/closePeerIfNeeded/afterDone"),("existence check for stream writers","serveconn.go, clientconn.go:collectWriteFrames")],
[("closedSelf/closedPeer/fullClosed","stream state","stream.go")],["write errors","frames on the wire","Frame.Context, FrameCh"])
p("C10","Resets and failed handlers are contained",
"A reset by the peer cancels the context of that request's handler and ends its incoming frames, and touches no other request. A handler that panics or returns without finishing its answer causes exactly one reset for its request and nothing else, and one that has answered causes none. Resetting a request that does not exist reports an error and sends nothing.",
"schedules histories","all handler outcomes (answer, partial stream, nothing, panic before/after writing, explicit reset) x request kinds x peer resets at every point, all interleavings within the bound, with other requests in flight",
"the suite has one cancellation test and no panicking handler",
"serveconn.go clientconn.go stream.go framereader.go",
[("handleRequestPanic","serveconn.go, clientconn.go"),("ResetByPeer","stream.go")],
[("stream context","cancelled on reset","stream.go")],["reset frames on the wire","Frame.Context().Done()","other requests' answers"])
p("C11","Pushes reach the subscriber, in order, exactly once",
"Every pushed frame that arrives on a connection is passed to the subscriber exactly once and in arrival order, with its payload, and never to a request handler or a waiting caller; a push reuses ids freely without disturbing requests or streams with the same id, and on a side without subscriber it is ignored without disturbing anything (the frames of a streamed push are for its subscriber to take). Walking connections for a broadcast visits every connection that is open throughout the walk exactly once and no connection that was closed before it began.",
"schedules histories","all frame sequences up to length 4 mixing pushes, requests and responses with equal ids; all interleavings within the bound of a broadcast with connects and disconnects",
"the push test only checks that the call returns",
"serveconn.go clientconn.go server.go stream.go",
[("push dispatch","clientconn.go/serveconn.go:readFrames"),("separate push streams","stream.go"),("WalkConn","server.go")],
[("activeConn","open connections","server.go")],["subscriber calls"])
p("C12","Servers can call clients over the same connection",
"A server-initiated request on an accepted connection reaches the client's handler once and its answer returns to exactly that server-side caller, while client requests are outstanding on the same connection in the other direction. Handlers on either side find the connection their request came in on and can call back over it, by request or by stream (inside a handler of a blocking request nothing else is read, so nested calls are made from non-blocking ones). Ids of the two directions never collide, so no request or answer is taken for one of the other direction.",
"schedules histories","all interleavings within the bound of 1-2 client requests with 1-2 server requests on one connection, including from inside a handler, with answers, resets and disconnects",
"one test makes one nested call",
"serveconn.go clientconn.go frame.go",
[("odd/even ids","clientconn.go/serveconn.go:nextRequestID"),("client handler dispatch","clientconn.go:readFrames")],
[("ConnectionInfo.respes","outstanding server calls","serveconn.go")],["client handler calls","server Response results"])
p("C13","At most one live connection per id; newest wins",
"Binding an id to a connection kicks the connection that had it: the old one's kick callback runs before its transport is closed, it is closed, and from then on lookups by that id find the new connection. Closing or kicking the old connection never unbinds the new one, a closed connection does not stay bound, and binding always terminates, for every interleaving of binds, kicks and closes. A connection is bound at most once, to an id that is not empty; other attempts are refused and change nothing.",
"schedules histories","all interleavings within the bound of 2-3 connections binding the same id, with closes and peer disconnects at any point, and all bind/close/lookup sequences up to depth 5",
"no test binds an id at all",
"server.go serveconn.go",
[("bindID loop","server.go:bindID"),("untrack","server.go:untrack")],
[("id2Conn","id to connection","server.go"),("untrack flag","connection removed","serveconn.go")],["SetID results","GetConnectionInfoByID/WalkConnByID","kick callback"])
p("C14","Closing a connection is final, once, and complete",
"However a connection ends (local close, several closes at once, peer disconnect, read error, write error, kick, server stop), its close notifications each run exactly once, a notification registered later runs immediately, handlers' contexts are cancelled, and every goroutine of the connection ends once its handlers return (while a blocking request is handled nothing is read, so what the peer does meanwhile is noticed when its handler returns). Closing again is harmless.",
"schedules fault_sequences","all interleavings within the bound of 2-3 causes of closing with handlers, stream consumers and writers in progress, on server and client side",
"tests let the process exit; nothing checks that goroutines end or that callbacks run once",
"serveconn.go clientconn.go server.go framereader.go",
[("untrack/closeUntracked","server.go, serveconn.go"),("loop exit","clientconn.go:loop")],
[("closeNotify","callbacks","serveconn.go"),("wg","goroutines of the connection","serveconn.go, clientconn.go")],["callback counts","goroutines left","Connection.Wait, Done"])
p("C15","Shutdown stops everything and waits",
"After a shutdown is requested, at any moment including during start-up, every serve loop returns with the server-closed error, every listener is closed, no connection is served that was accepted after the request, and shutdown callbacks run exactly once. When Shutdown returns, every accepted connection is closed and all its handlers have returned; it always returns once handlers do, also when called repeatedly or concurrently.",
"schedules","all interleavings within the bound of shutdown with start-up, accepting, serving, a second shutdown, callback registration, for 1-2 bindings",
"tests shut down an idle, fully started server once",
"server.go serveconn.go",
[("Shutdown","server.go"),("Serve loop","server.go:Serve"),("ServeAll group","server.go:ServeAll")],
[("done/doneChan/listeners/wg","server state","server.go")],["Serve/Shutdown return","listener state","goroutines left"])
p("C16","A reconnecting client recovers and stops when told",
"A client connection with reconnect redials with its configured settings after losing its transport, trying its addresses in turn, and then serves new requests on the new transport; requests caught by the loss fail or are answered, and nothing from the old transport is delivered to a later request or continues on the new transport. After Close it stops for good: no further dialling, all waiting calls return and all its goroutines end, at whatever moment Close comes.",
"schedules fault_sequences","all interleavings within the bound of requests, transport loss, failed dials and Close, for 1-2 addresses and queue sizes 0-2, up to 3 reconnects",
"no test uses the reconnecting constructor",
"clientconn.go",
[("loop/connect/endLoop","clientconn.go"),("abortRequestsWhenClosed","clientconn.go")],
[("rwc/loopCtx/cs/respes","per-transport state","clientconn.go")],["dial attempts","Request results","Wait/Done"])
p("C17","Inbound limits, timeouts and throttling are enforced exactly",
"With a limit on concurrent non-blocking requests, a connection never has more handlers of non-blocking requests running than the limit, is never closed while at or below it, and is closed when it is exceeded (blocking requests do not count); likewise for the limit on frames of any kind received per clock second. Connections of a binding close no faster than its close rate, and all of them do close; a connection on which nothing arrives for the read timeout, or whose peer takes no writes for the write timeout, ends then and not before (with a read timeout, what is missing of a payload that has begun is waited for at most three seconds). While a binding is throttled no new connection is accepted and no further request is started, beyond the one each listener or connection was already waiting for, and clearing the throttle releases everything that waits, however often and concurrently it is set and cleared.",
"schedules histories configurations","all request sequences with completions up to length 5 around limits 1-2, all arrival patterns over two clock seconds, all interleavings of set/clear with waiters",
"no test sets any limit or throttle",
"serveconn.go server.go",
[("inflight counter","serveconn.go:serve"),("frame counter","serveconn.go:readFrames"),("throttle","server.go:waitThrottle/SetThrottle/ClearThrottle")],
[("throttle","on flag and release channel","server.go")],["handler concurrency","connection open/closed","accept/read progress"])
p("C18","Requests are routed by command, through middleware",
"A request goes to the handler registered for the low two bytes of its command, whatever the third byte, after its middleware ran in registration order; a middleware that declines stops the rest and the handler. The middleware and the handler of a request see the same frame and stash, and no other request's. An unregistered command closes the connection, on server and client, and runs nothing; registering two handlers that would receive the same commands is refused.",
"inputs configurations","all registration sets over a command alphabet with and without the opaque byte, all middleware outcomes up to 3 in a chain, all request commands of the alphabet",
"tests register small distinct commands and use no middleware",
"server.go middleware.go qrpc.go",
[("ServeMux","server.go:Handle/ServeQRPC"),("HandlerWithMW","middleware.go")],
[("mux.m","routes","server.go")],["handler calls","registration panics","connection state"])
p("C19","Compressed payloads are transparent",
"A frame marked for the codec carries the encoded payload on the wire, or the plain one with the mark removed when encoding would enlarge it, and the receiver's application always sees the original payload. Empty payloads are never encoded, a payload the caller has already encoded is sent as is, and the mark of a stream applies to all its frames. Sending a marked frame on a side without codec fails with an error without disturbing later frames; receiving one there, or one that does not decode, ends the connection and delivers nothing.",
"inputs configurations histories","all payload classes (empty, shrinking, equal, growing, encode error, decode error) x {codec on both, one, no side} x both directions and writer kinds, sequences up to 3 frames on one writer",
"no test sets a codec",
"framewriter.go framereader.go conf.go",
[("EndWrite","framewriter.go"),("decode","framereader.go:readFrame")],
[("CodecFlag","frame is encoded","qrpc.go")],["bytes on wire","payload seen by application"])
p("C20","Channel-style streams behave like a pair of channels",
"Messages sent through one end of a pipe are received at the other in order, once, with their command and content; after the sender ends the stream, in the last message or separately, the receiver gets what was sent and then the end-of-stream error, and sending or ending again after that fails; a stream ended or reset without messages gives the end-of-stream error, and a caller receiving before anything was sent is refused. Each direction ends independently and contexts bound every receive.",
"schedules histories","all send/end/receive sequences up to length 4 per side against a queue model, and all interleavings within the bound",
"one test makes two lock-step echoes",
"channel/clienttransport.go channel/servetransport.go channel/encode.go channel/ch.go",
[("clientSender/serveSender","channel/*.go"),("receivers","channel/*.go")],
[("streamWriter/firstFrame/closed","pipe state","channel/clienttransport.go")],["Send/Receive/End results"])
p("C21","The multi-endpoint API answers or fails cleanly",
"A call returns the answer of an endpoint to that very call, or an error; a call to a named endpoint goes only there, a call to all endpoints yields one result per endpoint, and an untargeted call succeeds if the chosen endpoint can be reached again or the other one is connected; that endpoint is drawn in proportion to the weights (equally without them), one of weight 0 never, and a call is sent to its endpoint at most once. Unknown endpoints and a closed API are refused, and after closing, no connection it ever opened stays open, for every interleaving of calls, endpoint failures and Close.",
"schedules fault_sequences","all interleavings within the bound of 2 callers, endpoint failure and recovery and Close, 1-2 endpoints, all random endpoint choices",
"one test calls one healthy endpoint",
"api.go",
[("callViaIdx/callWithoutConn","api.go"),("safeCloseDeleteConn/safeStoreConnLocked","api.go")],
[("conns/activeConns","open connections","api.go")],["call results","connections open after Close"])
p("C22","The generated-RPC runtime dispatches and reports faithfully",
"A call through the generated-code client invokes exactly the method named by namespace and method with the caller's bytes and returns that method's bytes, or its error text as an error; an unknown method or undecodable call is answered with an error (the server then ends that connection, so calls beside it may fail), and a method's error leaves other calls alone. No call is executed twice. With several servers a call is sent to the next reachable one in turn, fails as unavailable when none is, and a cancelled call resets its request.",
"inputs schedules fault_sequences","all (namespace, method, payload, outcome) combinations of a small alphabet, all up/down patterns of 2-3 servers, all interleavings within the bound of cancellation with the answer",
"codegen has no tests at all",
"codegen/client.go codegen/service_handler.go codegen/pb/rpc.pb.go",
[("Client.Request","codegen/client.go"),("ServeQRPC","codegen/service_handler.go")],
[("callback","method table","codegen/service_handler.go")],["method invocations","Request results"])
p("C23","WebSocket transport carries the same byte stream as TCP",
"Over the WebSocket overlay every byte written on one side is read on the other in order, independent of how messages and reads are cut, a failed write is reported as such, control, text and empty messages never enter the stream, and closing either side ends the other's reads. Requests, pushes and streams therefore behave as over TCP, including the configured write timeout. Closing the overlay listener releases a waiting accept and closes connections that nobody has accepted yet.",
"inputs schedules fault_sequences","all splits of messages and read sizes up to the bound, all message types in sequences up to 3, write failures at each write, all interleavings within the bound of handshake, accept and close",
"tests exchange one request over a healthy WebSocket",
"ws/server/conn.go ws/server/overlay.go ws/client/conn.go",
[("conn.Read/Write","ws/server/conn.go"),("acceptCh","ws/server/overlay.go")],
[("buffer","rest of the current message","ws/server/conn.go")],["net.Conn Read/Write results","qrpc results over it"])
p("C24","No data races in concurrent use",
"Using connections, servers, writers obtained for separate goroutines, and their callbacks concurrently as documented never makes two goroutines access the same memory without synchronisation, at least one of them writing, in any schedule.",
"schedules","every pair of conflicting accesses to fields, maps and frame buffers, checked by happens-before on every explored execution of all concurrent scenarios",
"the suite is not run with a race detector, which would in any case only judge the schedules that happened",
"serveconn.go clientconn.go server.go stream.go framewriter.go api.go channel/clienttransport.go",
[("mutexes, channels, atomics","throughout")],
[("Connection fields","shared by loop, reader, writer, callers","clientconn.go")],["memory accesses of the instrumented code"])
p("C25","Admission and connection hooks are paired",
"A connection refused by the accept hook is closed, is never served, and its close hook runs once; an accepted one gets its close hook exactly once, after its last handler has returned. On the client the connect hook runs once per established transport and the disconnect hook once after each of those ends, alternating.",
"schedules fault_sequences histories","all accept/refuse sequences up to 3 connections x all endings, all interleavings within the bound with handlers in progress and with reconnects",
"no test sets a hook",
"server.go serveconn.go clientconn.go conf.go",
[("OnAccept/OnClose","server.go:Serve, serveconn.go:serve"),("OnConnect/OnDisconnect","clientconn.go:loop")],
[],["hook invocations"])
p("C26","Generated client and server code is correct for every service",
"For every service definition the code generator accepts (methods taking a context and one argument and returning one result with SetError; exported, importable, non-generic types; names that do not collide with each other's generated names) the code it emits compiles. Calling a method of the main service or of a sub service through the generated client sends one request with the configured command, runs exactly that method of the registered implementation with an equal argument and the call's own context, and returns an equal result. A failure to encode, decode or reach the method, a cancelled context and a service that is not registered are reported through SetError, without running a wrong method.",
"programs inputs","all definitions of a bounded grammar: 20 kinds of argument types (basic, JSON, self-marshalling by value or pointer, own JSON form, named and unnamed maps, slices, arrays, pointers, interface) x 6 kinds of result types x main or sub service; pairs of methods; 0-2 main methods x 0-2 sub services; name styles; clashing and awkward package names; several generators in one process; for each method every argument x result of an alphabet with empty, large and failing values",
"the generator has no test; its space is programs",
"codegen/generator.go codegen/client.go codegen/service_handler.go",[("Generate","codegen/generator.go")],[("allPkgs","package aliases of the emitted file","codegen/generator.go")],["emitted source","methods run","results of generated clients"])
p("C27","TLS protects and authenticates the connection",
"With TLS configurations, a client is served exactly if both ends accept each other by their configurations (roots, names, client certificates, versions, with and without TLS on either side), over TCP and WebSocket, on the first connection and on reconnects; others get an error and their requests reach no handler. Nothing a request or response carries is readable on the network, and changing, cutting or injecting bytes there never makes a handler or caller see other content; a peer that takes an address over without the right certificate neither reads nor answers anything. Dialling a peer that never answers the handshake gives up after the dial timeout.",
"inputs histories","every combination of server, client, transport and peer configurations of a grid; every byte position of a recorded exchange altered or cut, and every record dropped, repeated, swapped or injected; takeovers of the address at each connection of a client","tests do one TLS request with matching certificates",
"server.go clientconn.go ws/server/overlay.go ws/client/conn.go",[("tls.Server/tls.Client wrapping","server.go:Accept, clientconn.go:dialTCP"),("websocket dialling","ws/client/conn.go:Dialer")],[],["bytes on the network","results","handler runs"])
p("C28","Metrics tell exactly what a server did",
"With a counter and a histogram configured on a binding, every request its handler ran for, however the handler ended, is counted exactly once when it ends, labelled with its command and with the value it panicked with, and its handling time is observed once under the same labels. Every connection's end is counted once with its cause and every kick once; nothing else is counted but failed transport writes, and bindings never count each other's events.",
"histories schedules","every sequence up to depth 3 (4 thorough) of requests of all kinds, panics, streams, pushes, rebinds, disconnects and malformed frames on two bindings with all metric configurations, and all interleavings within the bound of concurrent requests and kicks",
"no test configures a metric",
"serveconn.go server.go conf.go",
[("instrument","serveconn.go:instrument"),("reader, writer and kick counts","serveconn.go:readFrames/writeFrames, server.go:bindID")],
[],["calls of the configured counter and histogram"])
p("C29","A request acts on its own connection only",
"What a handler learns or does through a request concerns the connection the request came by and no other: its connection, initiator, addresses and direction, values stored on the connection (seen by its later requests only) or stashed in the request (seen by that request only), its id, its read timeout, requests sent back through it. Closing through a request ends exactly that connection's transport; a reconnecting client connects again, any other connection is closed.",
"histories","every sequence up to depth 3 (4 thorough) of these operations over three server connections on two bindings, and up to depth 4 (6 thorough) over two clients, with and without reconnecting",
"tests use one connection at a time",
"frame.go serveconn.go clientconn.go",
[("connection in the stream's context","frame.go, serveconn.go, clientconn.go:newConnection")],
[("ConnectionInfo","per-connection values","serveconn.go")],["values seen by handlers","connections open","frames on each connection"])
p("C30","The command line tools send and show exactly the frame asked for",
"For every command, flags, id and payload that fit, packet prints exactly the bytes of that frame, and it rejects values that do not fit. qrpcurl, over TCP or WebSocket, sends one request with exactly the given command, flags (without the stream flags) and payload and prints the flags, command and payload of its response; a push has no response. Arguments that make no request send nothing, and whatever the peer answers, resets or cuts short, the tool never crashes and never shows a response that was not received whole.",
"inputs fault_sequences","all 256 flags, boundary commands, ids and payloads of both tools over both transports; all flags of answers; segmentations; end or reset of the connection after every byte of the answer; all malformed arguments of a grid",
"the tools have no test",
"tool/packet/main.go tool/qrpcurl/main.go",[("packet","tool/packet/main.go"),("qrpcurl","tool/qrpcurl/main.go")],[],["bytes the peer receives","output and exit status of the tools"])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
