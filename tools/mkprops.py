#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a program so that the long texts stay readable)."""
import json, os
S, H, I, F, C = "schedules", "histories", "inputs", "fault_sequences", "configurations"
def P(id, title, statement, over, text, why, files, mech, observe):
    return dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
L = []
L.append(P("C01", "Every client invocation resolves exactly once, with its own outcome",
 "Every Invoke and Send of a client resolves: its channel delivers at most one result, namely the result or the error the server produced for exactly this call, and is then closed. A call whose answer can no longer arrive (connection lost or closed, client stopped, silent server) resolves with an error instead of hanging or reporting success, and no call is executed more than once or answered with another call's outcome.",
 [S, H, I, F], "all interleavings of concurrent calls, answers in any order or batch, and connection loss, close message, stop, cancellation or silence at any point",
 "The tests make a handful of sequential calls over a loss-free in-memory connection; races between registration, sending, completion and loop end need particular interleavings and faults.",
 ["client.go", "invokeclient.go", "Invokeresult.go", "loop.go", "hubconnection.go"],
 [("result channels per invocation id", "invokeclient.go"), ("connection-unique ids", "loop.go GetNewID"), ("cancelAllInvokes after the loop", "loop.go Run")],
 ["channels returned by Client.Invoke and Client.Send", "invocations seen by the server"]))
L.append(P("C02", "The server executes each invocation once and answers it once",
 "For every well-formed invocation message, the server runs the named hub method (and a client its receiver method) exactly once with exactly the sent arguments and, if and only if the message has an invocation id, it sends exactly one completion with that id carrying the method's result or the reason it failed. Unknown methods, argument mismatches, panics and results that can not be encoded are answered with an error and affect no other invocation on the connection; slow methods do not delay others.",
 [S, H, I], "any mix, order and batching of blocking and non-blocking invocations of every argument and result shape, in both protocols and all encodings the protocol allows",
 "Tests check one invocation per case with fixed JSON text; they never overlap invocations, vary encodings or count completions over a session.",
 ["loop.go", "hubprotocol.go", "jsonhubprotocol.go", "messagepackhubprotocol.go", "party.go"],
 [("dispatch by reflection", "loop.go handleInvocationMessage/buildMethodArguments"), ("completion", "loop.go returnInvocationResult/recoverInvocationPanic")],
 ["wire messages sent by the server", "hub method calls"]))
L.append(P("C03", "Download streams deliver every item in order and end exactly once",
 "The items a hub method sends to its returned channel arrive at the client that pulled the stream completely, in order and without duplicates, followed by exactly one end of stream; an item that can not be encoded ends its stream with an error; concurrent streams and invocations on the connection do not mix. If the connection ends first or the server reports an error, the client sees a gap-free prefix of the stream, followed by an error and the end, never a silent truncation.",
 [S, H, F], "any number of concurrent streams, producer and consumer speeds, server behaviour allowed by the protocol, and connection faults at any point",
 "Stream tests use one short stream and a fast consumer; losing or reordering items needs particular timing of completion, buffering and failure.",
 ["streamer.go", "streamclient.go", "loop.go", "client.go", "Invokeresult.go"],
 [("streamer goroutine per stream", "streamer.go"), ("upstream channels", "streamclient.go")],
 ["channel returned by Client.PullStream", "stream item and completion messages on the wire"]))
L.append(P("C04", "Upload streams reach the hub method complete, in order and separately",
 "Every item a client sends to a channel given to PushStreams arrives on the corresponding channel of the hub method, in order and once, and that channel is closed exactly if the client closed its channel; several channels and several uploads do not mix. The result of the method is the result of PushStreams, and a hub method never sees the regular end of an upload which the client did not end.",
 [S, H, F], "any number of concurrent uploads with one or more channels, item types, speeds, and connection faults at any point",
 "Tests upload through one connection at leisure; mixing, early close and lost items depend on the interleaving of sender, loop and hub method.",
 ["loop.go", "streamer.go", "streamclient.go", "client.go"],
 [("stream ids per channel argument", "loop.go PushStreams"), ("buildChannelArgument", "streamclient.go")],
 ["channels of the hub method", "channel returned by Client.PushStreams"]))
L.append(P("C05", "Canceling a stream stops that stream, and only that stream",
 "After the server has received a cancel for a running stream, it sends no more than the item in flight and then ends this stream with exactly one completion as soon as the hub method offers the next item or ends. Cancels for unknown, ended or foreign streams have no effect on any stream, including a later stream with the same id, and any number of streams can be started and canceled on a connection.",
 [S, H, I], "all sequences of stream starts, ends and cancels on a connection with reuse of ids, and all their interleavings with item production",
 "One test cancels one stream once; the state kept about cancels only matters over a history.",
 ["streamer.go", "loop.go"], [("cancel marks", "streamer.go Stop/Start")],
 ["stream item and completion messages on the wire"]))
L.append(P("C06", "Messages reach exactly the addressed clients, each exactly once",
 "A message sent to all, to one client, to the caller or to a group is delivered exactly once to every connection that belongs to the target for the whole duration of the send and never to a connection outside of the target; group membership is what the completed joins and leaves say and ends with the connection. A slow, stuck or broken receiver neither prevents nor duplicates the delivery to the others, and a message that can not be encoded for a receiver ends no connection.",
 [S, H, F], "any history of connects, disconnects, joins, leaves and sends from hub methods and from outside of hubs, concurrently on many connections",
 "Tests use two or three static connections; membership races with connect and disconnect are not sampled.",
 ["hublifetimemanager.go", "hubclients.go", "clientproxy.go", "groupmanager.go", "hubcontext.go"],
 [("client and group maps", "hublifetimemanager.go"), ("proxies", "clientproxy.go")],
 ["receiver method calls on the clients"]))
L.append(P("C07", "Hub lifecycle: connected and disconnected once each, per-connection state",
 "For every connection that completed the handshake, the hub sees OnConnected exactly once and OnDisconnected exactly once, the latter when the connection has ended for whatever reason. With a hub factory every invocation gets a hub instance of its own; with a per-connection hub all calls of a connection go to one hub instance that belongs to this connection only; items stored in the hub context are seen by all later calls of the same connection and by no other connection.",
 [S, H, F, C], "any number of overlapping connections, invocations racing with connect and disconnect, and every way a connection can end",
 "Tests connect one client and disconnect it regularly; duplicate hub instances and lost lifecycle calls need races.",
 ["server.go", "hub.go", "hubcontext.go", "loop.go"],
 [("onConnected/onDisconnected", "server.go"), ("connectionHubs", "server.go"), ("Items", "hubconnection.go")],
 ["hub calls OnConnected, OnDisconnected and hub methods", "hub instances"]))
L.append(P("C08", "A hostile or broken peer harms only its own connection",
 "Whatever bytes a peer sends, in whatever pieces, and whether or not it reads: the process does not crash, the connection of that peer is served or ended with an error, and every other connection keeps working with correct results. This holds for servers and clients alike, for both protocols and during the handshake, and includes configured limits on concurrent streams.",
 [I, H, F, S], "all byte sequences (random, and well-formed messages with mutated fields), cut into arbitrary pieces, with abrupt ends and peers that stop reading",
 "Tests send a few malformed messages; the space of field combinations and sequences is unbounded and crashes need unusual ones.",
 ["loop.go", "hubconnection.go", "jsonhubprotocol.go", "messagepackhubprotocol.go", "streamclient.go", "server.go"],
 [("parse errors end the loop", "loop.go"), ("argument checks", "loop.go buildMethodArguments"), ("recover", "loop.go")],
 ["process survival", "other connections' results"]))
L.append(P("C09", "Message framing does not depend on how the bytes arrive",
 "Any sequence of well-formed messages has the same effect no matter how the transport splits or merges the bytes, including messages which arrive together with the handshake, and in every encoding the protocol specification allows for a value. Everything the library writes is a sequence of complete, well-formed messages of the protocol, also when many goroutines write concurrently.",
 [I, S], "all segmentations of all message sequences in both directions, both protocols, and all interleavings of concurrent writers",
 "Tests deliver one message per read; split length prefixes, split frames and merged frames need exhaustive segmentation.",
 ["jsonhubprotocol.go", "messagepackhubprotocol.go", "hubconnection.go", "server.go", "client.go"],
 [("readJSONFrames", "jsonhubprotocol.go"), ("readFrames", "messagepackhubprotocol.go"), ("remainder buffer", "hubconnection.go Receive")],
 ["effects of messages: hub calls, results, stream items", "bytes written"]))
L.append(P("C10", "The receive size limit applies to each message, and to nothing else",
 "A message larger than the configured maximum receive size is never processed and ends the connection with an error, without unbounded buffering. Messages within the limit are never refused, however many of them arrive at once and however they are split.",
 [I, H, C], "all message sizes around and far from the limit, all limits, batchings and segmentations, both protocols, server and client side",
 "Tests check one oversized message; bursts and splits decide whether the limit is applied to messages or to reads.",
 ["jsonhubprotocol.go", "messagepackhubprotocol.go", "hubconnection.go", "options.go"],
 [("maximumReceiveMessageSize", "jsonhubprotocol.go, messagepackhubprotocol.go")],
 ["processed messages", "end of the connection"]))
L.append(P("C11", "Keep-alive and timeout keep living connections and end dead ones",
 "On an idle connection each side sends a ping or another message at least every keep-alive interval, so that two peers with a timeout larger than the keep-alive interval stay connected indefinitely. A peer from which nothing arrives for the timeout interval is disconnected within a bounded time after that, never before, whatever is being sent to it meanwhile and even if it does not read.",
 [S, H, F, C], "all interval settings, traffic patterns, delays and silences of either peer, over long simulated times",
 "Tests would have to wait for real time; boundary behaviour and blocked writes are not sampled.",
 ["loop.go", "hubconnection.go", "options.go"],
 [("timeoutTicker and keepAliveTicker", "loop.go Run"), ("LastWriteStamp", "hubconnection.go")],
 ["messages on the wire with their simulated time", "end of Serve, client state"]))
L.append(P("C12", "Everything ends when the connection, client or server is stopped",
 "When a connection ends, an abort or close is called, the client is stopped or canceled, or the server's context is canceled, then Serve returns, Stop returns, every pending client operation is resolved and the peer learns about the end, all within a bounded time. This holds for every moment, also during the handshake, with calls and streams in flight and with a peer that neither reads nor writes, and the ended connection leaves no running goroutines behind.",
 [S, H, F], "stops, cancels, aborts and faults at any point of any session, alone and combined",
 "Tests stop idle sessions; hangs and leaks need an unlucky moment.",
 ["loop.go", "hubconnection.go", "client.go", "server.go", "connectionbase.go", "netconnection.go"],
 [("context cancellation", "hubconnection.go"), ("ReadWriteWithContext", "connectionbase.go"), ("waitGroup", "party.go")],
 ["return of Serve and Stop", "channels of pending operations", "goroutine count"]))
L.append(P("C13", "An auto-reconnecting client recovers, and only while it may",
 "A client with a connector reconnects after every loss of the connection and after failed attempts, with a new connection each time and only after its back-off, until it is stopped or canceled, its back-off gives up, or the server closes without allowing reconnect; once faults stop it becomes connected, without an error, and works again. The back-off is reset after each successful connection. Calls are never sent on one connection and answered by another, and when the client has ended for good its state is closed and stays closed.",
 [S, H, F], "any sequence of refused dials, failed or stalled handshakes, resets, closes with and without reconnect permission, stops and cancels",
 "Reconnect tests do one drop; the state machine over many faults and unlucky moments is not reached.",
 ["client.go", "clientoptions.go", "loop.go"],
 [("Start loop with back-off", "client.go"), ("shouldClientEnd", "client.go")],
 ["client state", "dials and messages seen by the server"]))
L.append(P("C14", "State observation is truthful, ordered, complete and never blocks the client",
 "An observer receives every state change that happens after its registration, once, in the order they happened, until it cancels the observation, which closes its channel. WaitForState returns nil only if the state was reached, returns an error if its context or the client ends first, and always returns; observers that do not receive, or that call the client while handling a change, block neither the client nor other observers.",
 [S, H], "any number of concurrent observers and waiters with any behaviour, racing with start, reconnect, stop and connection loss",
 "Tests wait for one state with one well-behaved waiter.",
 ["client.go"], [("setState and observers", "client.go"), ("WaitForState", "client.go")],
 ["observer channels", "channel returned by WaitForState"]))
L.append(P("C15", "HTTP negotiation hands out ids that admit exactly one connection",
 "Each negotiate request gets a fresh id and the configured transports; an id admits exactly one transport connection, which both sides and the hub know by the negotiated connection id, never by the secret token; requests with unknown, ended or already used ids are refused with a client error, and the number of negotiated but unused ids is limited as configured. A websocket request from a browser origin which is neither the host itself nor admitted by the origin options is refused without using up its id. No request of any kind or concurrency crashes the server or disturbs the connection of another client.",
 [S, H, I, C], "all sequences of concurrent HTTP requests, methods, ids and aborts",
 "Tests issue single regular requests; admission is a check-then-act that only concurrent requests can break.",
 ["httpmux.go", "httpconnection.go", "negotiateresponse.go", "serveroptions.go"],
 [("connectionMap", "httpmux.go")],
 ["HTTP status codes and bodies", "served connections"]))
L.append(P("C16", "HTTP transports carry the message stream unchanged and report their end",
 "Over WebSockets and over server-sent events with POST, in both transfer formats each supports, the messages written by one side arrive at the other side unchanged, in order and exactly once, whatever their content and size within the limits, however the HTTP layer chunks them and however many goroutines write. When either side ends the connection or the network breaks, both sides notice, and no reader or writer stays blocked.",
 [S, I, H, F], "all message contents and sizes, chunkings, concurrent writers and connection faults, with the real HTTP client and server",
 "Tests over real sockets send a few small messages; splitting of events and concurrent posts are not controlled.",
 ["clientsseconnection.go", "serversseconnection.go", "websocketconnection.go", "httpmux.go", "httpconnection.go"],
 [("SSE framing", "serversseconnection.go, clientsseconnection.go"), ("POST consumption", "serversseconnection.go consumeRequest"), ("websocket messages", "websocketconnection.go")],
 ["calls and results end to end", "raw HTTP exchanges"]))
L.append(P("C17", "Several servers with a Redis backplane behave like one",
 "With servers that share a Redis backplane, messages to all, to a client, to a group and changes of groups have, once they have propagated, the same effect on all connections of all servers as on a single server: every addressed connection gets the message exactly once, also those of the sending server. Messages sent, and groups changed, while Redis or the way to it does not work may be lost or repeated, and so may messages in a short time after; then everything works again, without a restart of the servers, also when Redis was not available when they started. Malformed or foreign messages on the backplane and its outages do not crash servers or break their connections. Arguments that JSON can represent arrive unchanged.",
 [S, H, F], "any history of sends, joins, leaves, connects and disconnects over several servers, delays in the backplane, and its failures",
 "There are no tests for the backplane; it needs several servers and a controllable Redis.",
 ["ext/redishublifetimemnager.go", "ext/options.go"],
 [("publish and subscribe", "ext/redishublifetimemnager.go")],
 ["receiver method calls on clients of all servers"]))
L.append(P("C18", "The handshake admits exactly valid peers, in bounded time",
 "The server answers a handshake request for a protocol it supports with an empty response and serves the connection, and any other request with an error response or by ending the connection, without ever calling the hub; a peer that does not complete the handshake is dropped after the handshake timeout. A client becomes connected only after a successful handshake response, and ends the attempt with an error otherwise, within the handshake timeout.",
 [I, S, F, C], "all handshake bytes and splits, delays around the timeout, and messages that follow immediately",
 "Tests cover one bad request; timing and segmentation are not sampled.",
 ["server.go", "client.go", "jsonhubprotocol.go"],
 [("processHandshake", "server.go"), ("receiveHandshakeResponse", "client.go")],
 ["bytes answered", "hub calls", "return of Serve, client state"]))
L.append(P("C19", "Clients that connect by URL use their options unchanged on every attempt",
 "A client made with WithHttpConnection, or with HttpConnectionFactory as connector, tries a websocket first and then server-sent events, as far as its own transports option and the server's offer allow, in the first attempt to connect and in every reconnect alike; it never uses a transport that is not allowed, and it becomes connected when an allowed one works. Every request carries the headers, the query and the negotiate version of the client's options, uses the connection id of its own negotiation and, for websockets, exactly the cookies this negotiation set (besides those of the HTTP client's own cookie jar, each once). What the user passed in (options, header values) is never modified, and refused, broken, hung or ended attempts leave neither goroutines nor open HTTP responses behind.",
 [H, F, C, S], "any sequence of refusals, garbage, hangs and breaks of each kind of request over any number of attempts, for all combinations and orders of options, and several clients that share them",
 "Tests connect once with fixed options and a server that works; what is left of the options after the first attempt is never seen.",
 ["clientoptions.go", "httpconnection.go", "client.go", "websocketconnection.go", "clientsseconnection.go"],
 [("HttpConnectionFactory", "clientoptions.go"), ("NewHTTPConnection", "httpconnection.go")],
 ["HTTP requests seen before the server", "client state", "the user's option values", "TCP connections"]))
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in L:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
