-------------------------------- MODULE Http --------------------------------
(* The HTTP entry point as a decision table: TLC visits every combination   *)
(* below and prints the request together with what has to be observed; the  *)
(* driver (harness/drive/parts_test.go) makes the request to a real server. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

Prefix == "X-Websocket-Header-"
\* URL parameters: name, value, canonical header name they stand for ("" if none)
Params == << <<"X-Websocket-Header-A", "1", "A">>, <<"Other", "z", "">>, <<"x-websocket-header-b", "x y", "B">>, <<"X-Websocket-Header-A", "2", "A">>,
             <<"ZX-Websocket-Header-C", "q", "">>, <<"X-Websocket-Header-X-Websocket-Reconnect", "3", "X-Websocket-Reconnect">>,
             <<"X-WebSocket-Header-D-e", "", "D-E">>, <<"X-Websocket-Header-", "e", "">>, <<"X-Websocket-Header-Cookie", "k=v; w=1", "Cookie">>,
             <<"a-X-Websocket-Header-F", "r", "">>, <<"X-Websocket-Headers-G", "r", "">> >>
Recon == {"none", "0", "1", "2", "10", "12345", "abc", "-1", ""}

VARIABLE c
Base == [method |-> "GET", closed |-> FALSE, upg |-> "ok", onerr |-> TRUE, gen |-> "custom", wrap |-> FALSE, via |-> "upgrade", params |-> {}, hasA |-> FALSE, recon |-> "none"]
Control == {[Base EXCEPT !.method = m, !.closed = cl, !.upg = u, !.gen = gn, !.wrap = wr, !.via = v, !.params = ps, !.onerr = oe] :
              m \in {"GET", "HEAD", "POST", "PUT", "OPTIONS", "DELETE", "PATCH", "CONNECT", "TRACE"}, cl \in BOOLEAN, u \in {"ok", "err", "gobwas", "gorilla"},
              gn \in {"custom", "server", "default"}, wr \in BOOLEAN, v \in {"upgrade", "serve"}, ps \in {{}, {1, 2, 6}}, oe \in {TRUE}}
Data == {[Base EXCEPT !.params = ps, !.hasA = a, !.recon = r, !.gen = gn] : ps \in SUBSET (1 .. Len(Params)), a \in BOOLEAN, r \in {"none", "2"}, gn \in {"custom", "server"}}
        \cup {[Base EXCEPT !.params = ps, !.hasA = a, !.recon = r, !.gen = gn] : ps \in {{}, {6}, {1, 6}}, a \in BOOLEAN, r \in Recon, gn \in {"custom", "server"}}
Silent == {[Base EXCEPT !.upg = u, !.onerr = FALSE, !.via = v] : u \in {"err", "gobwas"}, v \in {"upgrade", "serve"}}
\* ServeHTTP has no generator of its own and no wrapper
Cases == {x \in Control \cup Data \cup Silent : x.via = "serve" => x.gen # "custom" /\ ~x.wrap}

Outcome(x) == IF x.closed THEN "closed" ELSE IF x.method = "HEAD" THEN "retry" ELSE IF x.method # "GET" THEN "method"
              ELSE IF x.upg # "ok" THEN "upgrade" ELSE "ok"

Chosen(x) == SelectSeq([i \in 1 .. Len(Params) |-> IF i \in x.params THEN Params[i] ELSE <<"", "", "">>], LAMBDA p : p[1] # "")
FromHeader(x, h) == CASE h = "A" -> IF x.hasA THEN <<"0">> ELSE <<>>
                      [] h = "X-Websocket-Reconnect" -> IF x.recon = "none" THEN <<>> ELSE <<x.recon>>
                      [] OTHER -> <<>>
Values(x, h) == FromHeader(x, h) \o [i \in 1 .. Len(SelectSeq(Chosen(x), LAMBDA p : p[3] = h)) |-> SelectSeq(Chosen(x), LAMBDA p : p[3] = h)[i][2]]
Names == <<"A", "B", "Cookie", "D-E", "X-Websocket-Reconnect">> \* alphabetically
Headers(x) == LET hs == SelectSeq(Names, LAMBDA h : Values(x, h) # <<>>) IN [i \in 1 .. Len(hs) |-> [name |-> hs[i], values |-> Values(x, hs[i])]]
Tries(x) == LET v == Values(x, "X-Websocket-Reconnect") IN
            IF v = <<>> THEN 0 ELSE CASE v[1] = "1" -> 1 [] v[1] = "2" -> 2 [] v[1] = "3" -> 3 [] v[1] = "10" -> 10 [] v[1] = "12345" -> 12345 [] v[1] = "-1" -> -1 [] OTHER -> 0

Want(x) ==
  LET o == Outcome(x) IN
  [status |-> CASE o = "closed" -> "500" [] o = "retry" -> "302" [] o = "method" -> "405" [] o = "upgrade" -> "failed" [] OTHER -> "none",
   allow |-> IF o = "method" THEN "GET" ELSE "",
   err |-> IF x.via = "serve" THEN "unseen" ELSE CASE o = "ok" -> "none" [] o = "retry" -> "retry" [] o = "upgrade" -> "upgrader" [] OTHER -> "other",
   conn |-> x.via # "serve" /\ o = "ok",
   total |-> IF o = "ok" THEN 1 ELSE 0,
   onconnect |-> IF o = "ok" THEN 1 ELSE 0,
   onupgradeerror |-> IF o = "upgrade" /\ x.onerr THEN 1 ELSE 0,
   id |-> IF o = "ok" THEN x.gen ELSE "",
   wrapped |-> o = "ok" /\ x.wrap,
   headers |-> IF o = "ok" THEN Headers(x) ELSE <<>>,
   tries |-> IF o = "ok" THEN Tries(x) ELSE 0,
   reconnected |-> o = "ok" /\ Tries(x) > 0]

Init == c \in Cases
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT("CASE " \o ToJson([part |-> "http", in |-> [c EXCEPT !.params = [i \in 1 .. Len(Chosen(c)) |-> <<Chosen(c)[i][1], Chosen(c)[i][2]>>]], want |-> Want(c)]))
=============================================================================
