CLAIMED = {
'C01': 'Every combination of a grid of ids, commands, flags, payload sizes; every cut of the byte stream at up to the stated number of places; every sequence of writer operations up to the stated depth; real code, scripted peer, independent codec of the frame format as oracle.',
'C02': 'Every malformed frame of a boundary grid, every disconnection point of a byte history, every frame sequence over two ids and all flag kinds up to depth 3 (4 thorough), against server and client.',
'C03': 'All interleavings within the deviation bound of concurrent writers with transport faults (partial writes, timeouts, resets), closes, kicks; oracle: bytes on the wire are complete frames as written, in order, once.',
'C04': 'As C03; oracle: results against bytes accepted by the transport, deadlock and leak detection on every execution.',
}
CLAIMED.update({
'C05': 'All interleavings within the deviation bound of three concurrent callers x every answer order x pushes, strays, duplicates carrying the same ids; every sequence of requests, answers, resets, pushes up to depth 5 (6 thorough) against a reference model; oracle: each caller gets its own id and payload once.',
'C06': 'A caller waiting while the peer answers, resets, disconnects, or the connection is closed, kicked, shut down, or the context ends, at every interleaving within the bound; deadlock and leak detection on every execution.',
'C07': 'All request sequences up to length 4 over {blocking, non-blocking, stream} x queue sizes x completion orders, and interleavings within the bound; oracle: handler begin/end history.',
'C08': 'All arrival orders of two interleaved streams, and all interleavings within the bound of full-duplex streams between real client and server; oracle: per-stream FIFO queue.',
'C09': 'Every sequence of stream operations of both sides up to the stated depth against a reference automaton, and all interleavings of the two sides within the bound.',
'C10': 'Every handler outcome x request kind x peer reset point with other requests in flight, all interleavings within the bound; oracle: frames on the wire, contexts.',
})
CLAIMED.update({
'C11': 'All sequences of pushes of all kinds x subscribers, and all interleavings within the bound of pushes with requests, connects and disconnects; WalkConn at every interleaving; oracle: pushes received once, in order, by the right client.',
'C12': 'All combinations and interleavings within the bound of calls in both directions over one connection; oracle: each caller gets its own response.',
'C13': 'All sequences of bind, rebind, close over ids and connections up to the stated depth against a reference map, and all interleavings of concurrent binds and disconnects within the bound.',
'C14': 'All interleavings within the bound of every cause of a connection ending with each other and with requests, streams and pushes under way; leak, deadlock and panic detection on every execution.',
'C15': 'All interleavings within the bound of Shutdown with serve loops starting, connections being accepted, requests under way, and failing listeners.',
'C25': 'All interleavings within the bound of connects, closes, kicks and shutdowns; oracle: history of the hook calls.',
})
CLAIMED.update({
'C16': 'All interleavings within the bound of transport losses, failed dials, requests, streams and Close, with 1-2 addresses and queue sizes 0-2, over several reconnects; oracle: dial history, results, goroutines left.',
'C17': 'Every sequence of requests of all kinds and completions up to length 5 around limits 1-2, every arrival pattern over clock seconds, every sequence of throttle set and clear, and all their interleavings within the bound; timeouts on a virtual clock.',
'C18': 'Every pair and triple of registrations over a command alphabet, every outcome of middleware chains up to 3, every request command; concurrent requests at all interleavings within the bound.',
'C19': 'Every sequence of up to 3 frames of every payload class x writer kind x codec configuration against an independent model of the mark and the wire; real client and server in both directions.',
})
CLAIMED.update({
'C20': 'All sequences of sends, ends and receives of both ends of a pipe up to length 4 against a queue model, two pipes side by side, cuts of the connection, and all interleavings within the bound of concurrent use.',
'C21': 'All interleavings within the bound of callers, endpoint failures and recoveries and Close over 1-2 endpoints and all random endpoint choices; all operation sequences up to the stated depth; oracle: call history at the endpoints, open connections after Close.',
'C22': 'All (namespace, method, payload, outcome) combinations of an alphabet, all malformed encodings of a grid, all up/down patterns of 2-3 servers, all interleavings within the bound of cancellation and loss with the answer.',
})
CLAIMED.update({
'C23': 'Real gorilla/websocket and net/http upgrade code on the in-memory network: all cuts of a byte history into messages and reads x message types, all write failures, all interleavings within the bound of handshake, accept, close and stalls; the concurrent scenarios of the other properties again over the overlay.',
'C24': 'Every read and write of a field, element, map or buffer of the library and of gorilla/websocket in every explored execution of the concurrent scenarios, judged by vector clocks over the happens-before order of the Go memory model.',
})
CLAIMED.update({
'C26': 'Every service definition of a bounded grammar is generated by the real generator, compiled and served over loopback TCP; every method is called through the generated client with every argument x result of an alphabet; oracle: recorded method and argument, result, requests counted at the server.',
})
CLAIMED.update({
'C28': 'Every sequence of requests, panics, kicks and ends of connections up to the stated depth on two bindings, in virtual time, against a reference list of counts and observations; all interleavings within the bound of concurrent requests and kicks.',
'C29': 'Every sequence of operations through requests over several connections up to the stated depth against a reference record per connection.',
})
CLAIMED.update({
'C27': 'Every combination of server and client configurations of a grid over TCP and WebSocket, first connection and reconnect; every byte of the exchange changed or cut and every record dropped, repeated, swapped, injected; every takeover and mute peer; oracle: handler runs, results, plain text in the recorded bytes. crypto/tls itself is trusted.',
})
CLAIMED.update({
'C30': 'Every combination of a grid of arguments of both tools, run as built from the tree; for qrpcurl against a scripted peer over TCP and WebSocket that answers, is cut after every byte of its answer, resets, refuses or leaves; oracle: bytes at the peer and output against a reference of doc/frame.md.',
})
