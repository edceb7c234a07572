#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run to regenerate)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=hook)))

p("N01","Messages cross the wire unchanged",
 "Whatever namespace, room, event, body, error text and text/binary kind a side sends, the receiving callback (or the waiting request) sees exactly those values, also when names contain the field separator (but not the library's own escape token for it), when fields are empty and when the body is arbitrary bytes (valid UTF-8 for text over a websocket). An error both sides registered as known arrives as that very error value, any other error arrives with its exact text. Routing information (recipient, excluded sender, server-internal connection identity) is never disclosed to clients.",
 ["inputs"],"every message: all combinations of fields, separators, bodies, error/no error, reply/no reply, text/binary",
 "TestMessageSerialization samples 8 messages plus one escape case, and compares a codec with itself; nothing exercises binary kind, separators end to end, or leakage of routing data.",
 ["message.go","conn.go","event.go"],
 [("serializeMessage/serializeOutput/escape","message.go"),("DeserializeMessage/deserializeInput/unescape","message.go"),("resolveError/RegisterKnownError","message.go"),("Conn.Write clears FromExplicit","conn.go")],
 observe=["Message seen by callbacks","frames on a raw socket","Message.Serialize / DeserializeMessage"])

p("N02","Foreign, malformed or misaddressed input never runs an application callback",
 "A payload that is not a well-formed message runs no callback, changes no namespace or room membership and leaves the connection usable, unless native messages were enabled, in which case the native-message callback gets exactly those bytes. A well-formed event for a namespace this connection is not connected to runs no event callback, and a connect, disconnect, join or leave that asks for no answer is ignored. A connection that declares nothing but a native-message callback hands every payload verbatim to it, needs no handshake, and never interprets one as a protocol message.",
 ["inputs","histories"],"every payload a remote peer can put on the wire, at every point of a connection's life",
 "The tests use well-behaved neffos clients only; one malformed payload is fed to the codec alone.",
 ["message.go","conn.go"],
 [("deserializeInput validity check","message.go"),("Conn.handleMessage invalid check, tryNamespace","conn.go"),("native-only mode","conn.go newConn")],
 observe=["callbacks on the receiving side","membership queries"])

p("N03","A dial succeeds exactly when the server accepts the connection",
 "Dial returns a usable client carrying the identifier the server assigned if and only if the server's connect callback returned no error; if that callback returned an error (even after it already wrote to the connection or connected it to a namespace), the connection is terminated (once the client's handshake message arrived) and, unless the server had itself released it earlier by writing to it, Dial fails with that error's text. While the connect callback is undecided no namespace, room or event callback runs for that connection, and none ever runs for a refused one. The handshake completes under every timing of callback return, acknowledgement arrival and connection loss.",
 ["schedules","histories"],"every interleaving of the server's connect callback, the client's acknowledgement, early writes by the server, and connection loss",
 "Only TestServerAsk sets a connect callback and it always accepts; refusal and the race between acknowledgement and the callback are never run.",
 ["server.go","conn.go","client.go","waiter_once.go"],
 [("waiterOnce","waiter_once.go"),("Conn.handleACK / sendClientACK","conn.go"),("Server.Upgrade OnConnect handling","server.go")],
 [("readiness","whether and how the server decided","conn.go"),("acknowledged","handshake done","conn.go")],
 ["Dial result","callback log","socket closed"])

p("N04","Messages that arrive before acceptance are held and then handled once, in order",
 "Messages a client sends before the server accepted the connection are kept, and once it is accepted each is handled exactly once in the order it arrived and before anything that arrives later. If the connection is refused they are never handled.",
 ["schedules","inputs","histories"],"every sequence of early text and binary messages and every point at which acceptance happens",
 "The neffos client waits for the acknowledgement before it sends, so no test ever puts a message in that queue.",
 ["conn.go"],[("Conn.handleACK default branch, handleQueue","conn.go")],
 [("queue","payloads read before acceptance","conn.go")],["callback order on the server","reply frames"])

p("N05","Connecting to a namespace is agreed by both sides or happens on neither",
 "Connect succeeds only if both sides declare the namespace and neither side's connect callback returns an error; then both sides report the namespace as connected, and messages sent by the other side right afterwards are delivered. Otherwise the caller gets the rejecting side's error and neither side is connected. Once activity settles both sides always agree on what is connected, even when both sides called at the same time (up to two calls at once), and connecting again to a connected namespace returns the existing connection without running callbacks on either side.",
 ["histories","inputs","schedules"],"every sequence of connect, disconnect and reconnect from either side, every accept/reject decision, and messages racing with the connect",
 "TestConnect makes six connects from the client side in a fixed order; no reconnects, no server-initiated connects, no concurrent traffic.",
 ["conn.go","process.go","client.go"],
 [("Conn.askConnect / replyConnect","conn.go"),("processes: hold incoming messages while connecting","process.go, conn.go tryNamespace")],
 [("connectedNamespaces","the connected namespaces of one side","conn.go")],["Connect result","Conn.Namespace on both sides","callbacks"])

p("N06","Disconnecting from a namespace is agreed, and the server can veto it",
 "After a successful disconnect (of one or of all namespaces, from either side) neither side is connected to the namespace nor in any of its rooms, and other namespaces are untouched. If the server's disconnect callback rejects a client's request, the client gets that error and both sides keep the namespace and all its rooms. Disconnecting a namespace that is not connected reports a bad-namespace error and changes nothing.",
 ["histories","inputs"],"every history of connects, joins and disconnects on several namespaces from either side, with or without veto",
 "No test disconnects from a namespace at all.",
 ["conn.go","conn_namespace.go"],[("Conn.askDisconnect / replyDisconnect / DisconnectAll","conn.go"),("NSConn.forceLeaveAll","conn_namespace.go")],
 [("connectedNamespaces, rooms","membership of one side","conn.go, conn_namespace.go")],["Disconnect result","membership on both sides"])

p("N07","Room membership is agreed by both sides, and either side can refuse",
 "After a successful join both sides list the room exactly once and after a successful leave (of one or of all rooms) neither does; rooms of other namespaces and other rooms are untouched. If the caller's own or the remote side's join callback, or the server's leave callback for a client's request, returns an error the caller gets that error and the membership of both sides is unchanged. Joining a joined room returns it without running callbacks; leaving a room that is not joined reports a bad-room error.",
 ["histories","inputs"],"every history of joins and leaves of several rooms in several namespaces from either side, with or without refusal",
 "Two tests join and leave one room once; no refusals, no second room, no leave-all, no server-initiated leave.",
 ["conn_namespace.go","conn_room.go"],[("NSConn.askRoomJoin / replyRoomJoin / askRoomLeave / replyRoomLeave / LeaveAll","conn_namespace.go")],
 [("rooms","joined rooms of one side","conn_namespace.go")],["JoinRoom/Leave results","NSConn.Rooms on both sides"])

p("N08","Lifecycle callbacks are paired, ordered and fired exactly once",
 "On each side a namespace goes through connect, connected and exactly one disconnect callback per connection, and a room through join, joined, leave and left exactly once each per membership, in that order, with every room's leave and left before its namespace's disconnect (which for a client's request the server consults first; simultaneous attempts may ask connect or join once more, but connected and joined run once). This holds however membership ends: by request of either side, by closing either end, by server shutdown or by loss of the connection; endings by closing are marked as forced. The connected and joined callbacks run only when membership is really established, the left callback only when it is really over.",
 ["histories","fault_sequences","crash_points"],"every history and every way of ending a namespace or room membership, including connection loss at any point",
 "Tests look at one OnRoomLeft firing; pairing, order and forced teardown are never asserted.",
 ["conn.go","conn_namespace.go"],[("Conn.Close","conn.go"),("forceLeaveAll","conn_namespace.go"),("askConnect/replyConnect/askDisconnect/replyDisconnect","conn.go")],
 observe=["callback log per side, namespace and room"])

p("N09","Nothing is sent to a namespace or room the connection is not in",
 "A message for a namespace, or for a room, that the sending side's connection is currently not in is not put on the wire and the send reports failure, whichever send method is used; a send on a connection that is in them reports success and is put on the wire exactly once. Sending on a closed connection reports failure.",
 ["histories","inputs"],"every membership history and every send method (namespace, room, raw message, binary, request, broadcast)",
 "Tests only send where membership exists.",
 ["conn.go","conn_namespace.go","conn_room.go"],[("Conn.canWrite / Write","conn.go"),("NSConn.Emit, EmitBinary, Ask; Room.Emit","conn_namespace.go, conn_room.go")],
 observe=["return value","frames on the socket"])

p("N10","Each delivered message runs its callback exactly once, in order",
 "Messages one side sends over a connection run callbacks on the other side exactly once each and in the order they were sent, one at a time, for every event, namespace and transport and also while requests are outstanding in either direction or are issued from inside callbacks. A callback's error or reply is returned exactly once to the sender under the same namespace, room and event; a callback that returns nothing sends nothing.",
 ["schedules","inputs","histories"],"every sequence and interleaving of sends, requests and callback results on a connection",
 "The only multi-message test (TestSimultaneouslyEventsRoutines) is commented out; order and exactly-once are never asserted.",
 ["conn.go","conn_handler.go"],[("Conn.startReader / handleMessage","conn.go"),("Events.fireEvent","conn_handler.go")],
 observe=["callback log per connection side"])

p("N11","A request gets the reply to that very request",
 "Ask returns the body or the error that the remote callback produced for that particular request, never another request's reply nor an unrelated message, for any number of requests outstanding at once in both directions on one connection, issued from inside or outside callbacks. The remote callback runs exactly once per request. A reply that arrives after its request was abandoned is discarded and affects no other request.",
 ["schedules","inputs","histories"],"every interleaving of concurrent requests, replies, emitted messages and timeouts on a connection",
 "TestAsk issues requests strictly one after another; the suite runs on one processor because concurrent timing is known to break it.",
 ["conn.go","message.go"],[("Conn.ask, waitingMessages, handleMessage","conn.go"),("genWait, IsWait","message.go")],
 [("waitingMessages","outstanding requests by token","conn.go")],["Ask results","remote callback log"])

p("N12","A blocking call always ends: by reply, by context, or by the connection closing",
 "Ask, Connect, JoinRoom, Leave, Disconnect and their all-variants return when their reply arrives, no later than their context ends, and when the connection is closed by either side or lost, even with no deadline. They return an error unless the operation really succeeded, and an abandoned call does not keep the connection from serving later messages and calls.",
 ["schedules","fault_sequences","crash_points"],"every point at which the context ends or the connection closes relative to the call",
 "All tests pass context.TODO() and healthy connections; a hang would only show as a test timeout.",
 ["conn.go","conn_namespace.go"],[("Conn.ask select on context","conn.go"),("Conn.Close clearing waiting requests","conn.go")],
 observe=["call returned, with which error, at which (virtual) time"])

p("N13","A broadcast reaches exactly its audience",
 "A broadcast message is delivered to every open connection that is in its namespace (and in its room, if one is named) and whose identifier equals the recipient, if one is named, and to no other; each message of a multi-message broadcast is routed on its own. Passing a connection or a namespace connection as the sender excludes only that connection even if others share its identifier; passing a room, or an identifier, excludes every connection with that identifier. Exclusions do not outlive the call they were given to.",
 ["histories","inputs","configurations"],"every set of connections, memberships, shared identifiers, recipients, exclusions and message batches; with the default, the synchronous and the exchange-backed broadcaster",
 "TestServerBroadcastTo has two connections, one message, one namespace and one recipient.",
 ["server.go","broadcaster.go","conn.go"],[("Server.Broadcast, publishMessages","server.go"),("Conn.canWrite / Conn.Is","conn.go")],
 observe=["messages received per connection"])

p("N14","No broadcast is lost, duplicated or reordered",
 "Every connection that is in the audience from before a broadcast call until it is delivered receives each of its messages exactly once, with unchanged content, however many broadcasts run concurrently and whatever else happens on other connections; broadcasts issued one after another by a server arrive in that order. A slow, closing or failing connection does not prevent delivery to the others (the synchronous broadcaster may delay it).",
 ["schedules","fault_sequences"],"every interleaving of concurrent broadcasts with connection arrival, departure and message delivery",
 "Tests issue a single broadcast and wait for it.",
 ["broadcaster.go","server.go"],[("broadcaster","broadcaster.go"),("Server.waitMessages, start loop","server.go")],
 [("broadcaster.messages / awaiter","the messages to publish next","broadcaster.go")],["messages received per connection, in order"])

p("N15","A server-wide request returns one genuine reply and never jams the server",
 "The server's Ask returns the reply (or error) of the addressed connection, or of the first connection to reply if none is addressed, and otherwise ends when its context ends. Further or late replies never block any connection: each keeps handling its messages, and other requests are unaffected.",
 ["schedules","histories"],"every number of responders and every interleaving of replies, timeouts and further traffic",
 "TestServerAsk has exactly one responder that always answers in time.",
 ["server.go","conn.go"],[("Server.Ask, waitingMessages","server.go"),("Conn.handleMessage","conn.go")],
 [("Server.waitingMessages","outstanding server-wide requests","server.go")],["Ask result","later traffic on every responder"])

p("N16","The server's view of its connections is exact",
 "Once activity settles, the connection count, the listings and the per-connection visitor contain exactly the connections that were accepted into the server and have not ended, each once. The disconnect callback runs exactly once for every connection that ended after it had been accepted, after which it is listed no more, and not for connections refused at connect time unless configured to always fire.",
 ["schedules","fault_sequences","histories"],"every interleaving of arrivals, refusals, closings from either side and connection losses",
 "No test looks at counts, listings or the disconnect callback.",
 ["server.go","conn.go"],[("Server.start loop","server.go"),("Conn.Close","conn.go"),("GetTotalConnections, GetConnections, GetConnectionsByNamespace, Do","server.go")],
 [("connections, count","open connections","server.go")],["GetTotalConnections, GetConnections*, Do","OnDisconnect calls"])

p("N17","Closing ends everything, on both sides, exactly once",
 "Closing a connection from either side, losing it, or exceeding its read timeout ends it on both sides: both report closed, hold no namespace (but the implicit one of a native-only connection) and no room, the client's close notification fires, and further calls fail instead of hanging; repeated or concurrent closes have no further effect. Closing the server ends all of its connections, including ones being accepted at that moment, and it accepts no new ones.",
 ["schedules","fault_sequences","crash_points"],"every point and every party at which a connection or server is closed, relative to all other activity",
 "Tests close at the very end and assert nothing afterwards.",
 ["conn.go","server.go","client.go"],[("Conn.Close","conn.go"),("Server.Close, Upgrade","server.go"),("Client.NotifyClose","client.go")],
 observe=["IsClosed, membership, NotifyClose","upgrade results"])

p("N18","Callbacks may use the library freely",
 "From inside any lifecycle or event callback an application can send, broadcast, make requests, query memberships, connect, disconnect, join, leave or close, and these calls complete with their normal results and the connection and the server keep working; nothing deadlocks unless callbacks of both sides wait for each other's answer, and then only until their context ends. Messages that arrive meanwhile are neither lost nor mistaken for replies.",
 ["schedules","histories"],"every callback kind combined with every library call, with traffic in flight",
 "One test leaves and joins a room in a callback; no callback during teardown calls the library.",
 ["conn.go","conn_namespace.go","server.go"],[("Conn.Ask inside-handler mode","conn.go"),("locking in Close, DisconnectAll, LeaveAll, forceLeaveAll","conn.go, conn_namespace.go")],
 observe=["nested call results","later traffic"])

p("N19","With an exchange, several servers behave like one",
 "When servers share an exchange (redis, nats or custom), a broadcast from any of them reaches exactly the audience it would reach if all their connections were on one server - honouring namespace, room, recipient and the excluded sender connection - once per connection and, per server and namespace, in order (as text; a connection, but not an identifier, can be excluded). A server-wide request reaches connections of all servers and returns the reply, wherever the replying connection is attached.",
 ["histories","configurations","schedules"],"every placement of connections on servers, membership history, recipient and exclusion, for each exchange",
 "stackexchange/redis and stackexchange/nats have no tests at all, and no test uses an exchange.",
 ["stackexchange.go","stackexchange/redis/stackexchange_redis.go","stackexchange/nats/stackexchange_nats.go","server.go","message.go"],
 [("Publish/Subscribe/Ask/NotifyAsk","stackexchange/*"),("genWaitStackExchange, DeserializeMessage","message.go"),("Server.Broadcast/Ask","server.go")],
 observe=["messages received on every server's clients","Ask result"])

p("N20","Exchange subscriptions follow connections exactly",
 "Every exchange in use is told about each connection once when it arrives and once when it ends (also when it is refused or lost), and is subscribed to a namespace exactly while the connection is connected to it. With several exchanges each of them is told, a connection is refused if any of them refuses it, and a request falls through to the next exchange when one fails.",
 ["histories","fault_sequences","configurations"],"every connection history, every way of ending, one or more exchanges, any of them failing",
 "No test uses an exchange.",
 ["stackexchange.go","server.go","conn.go"],[("stackExchangeWrapper","stackexchange.go"),("notifyNamespaceConnected/Disconnect","conn.go"),("Server.start, Upgrade","server.go")],
 observe=["calls received by a recording exchange"])

p("N21","Per-connection storage is consistent under concurrency",
 "A value stored on a connection is returned by later reads of that key until overwritten, and keys and connections do not affect each other. Increment and Decrement are atomic: with any number of concurrent callers each result value is handed out once and the final value equals the number of increments minus decrements.",
 ["schedules"],"every interleaving of concurrent Set, Get, Increment and Decrement calls",
 "No test touches the store.",
 ["conn.go"],[("Conn.Set, Get, Increment, Decrement","conn.go")],[("store","key/value map","conn.go")],["return values"])

p("N22","Socket adapters carry each message whole, once and in order",
 "With either websocket implementation on either end, each text or binary write arrives as exactly one message with the same kind and bytes, whatever its size or fragmentation by the peer and however many goroutines write at once; control frames never surface as messages. A configured read or write timeout applies to each operation anew, and when the peer closes or vanishes reading ends with an error.",
 ["inputs","schedules","fault_sequences"],"every size, kind, fragmentation, interleaved control frame, writer interleaving and pairing of implementations",
 "Tests run a few tiny text messages per adapter, with equal implementations on both ends.",
 ["gobwas/socket.go","gorilla/socket.go","gobwas/upgrader.go","gorilla/upgrader.go"],
 [("Socket.ReadData/WriteBinary/WriteText","gobwas/socket.go, gorilla/socket.go")],observe=["ReadData results of the peer","bytes on the connection"])

p("N23","Events reach their declared callback, and declarations combine predictably",
 "An event runs its declared callback, else the any-event callback of the same namespace, else nothing; never another namespace's. Combining handlers yields the union of their namespaces and events, the later one winning on conflicts, without modifying the inputs. A struct handler exposes exactly its eligible methods under the documented names, and a struct with a connection field gets its own instance per namespace connection, with the configured fields copied and the connection set, isolated from all other connections.",
 ["inputs","histories","configurations"],"every set of declarations, name matchers, struct shapes and every sequence of connections using them",
 "Three struct tests call one method each on one fake connection; combination is checked for one pair.",
 ["conn_handler.go","reflect.go","event.go"],[("Events.fireEvent, JoinConnHandlers, NewStruct","conn_handler.go"),("makeEventsFromStruct, makeEventFromMethod","reflect.go")],
 observe=["callbacks run","GetNamespaces results"])

p("N24","The HTTP entry point admits only legitimate upgrades and keeps request data",
 "A closed server, a HEAD probe, any other non-GET method, and a failed websocket upgrade each get their documented HTTP status and error and leave no connection behind. Otherwise the connection gets the identifier from the per-call or server generator, the reconnect attempts announced by the client, and as request headers exactly those URL parameters that carry the documented prefix.",
 ["inputs","histories"],"every method, header, URL parameter and server state",
 "Tests only make successful upgrades.",
 ["server.go"],[("Server.Upgrade, tryParseURLParamsToHeaders, IsTryingToReconnect","server.go")],observe=["HTTP response","returned error","Conn fields"])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    n=x["statement"].count(". ")+1
    if n>3: print("sentences",x["id"],n)
