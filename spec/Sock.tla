-------------------------------- MODULE Sock --------------------------------
(* One websocket adapter against a peer that speaks raw frames. TLC visits  *)
(* every script below and prints it with what the adapter has to report:    *)
(* the messages read, the answers to pings, how reading ended, and what     *)
(* arrives of concurrent writes.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANT Deep
VARIABLES c
Adapters == {[impl |-> i, role |-> r] : i \in {"gob", "gor"}, r \in {"server", "client"}}

-----------------------------------------------------------------------------
\* Reading. A message: kind, size, frames, control frames between them, where an empty frame is
Msg(k, n, f, mid, e) == [do |-> "msg", kind |-> k, size |-> n, frames |-> f, mid |-> mid, empty |-> e]
Ctl(k, n) == [do |-> k, kind |-> "", size |-> n, frames |-> 0, mid |-> "", empty |-> ""]
Sizes == IF Deep THEN {0, 1, 125, 126, 65535, 65536, 70000} ELSE {0, 1, 126, 70000}
Msgs == {Msg(k, n, 1, "", "") : k \in {"text", "binary"}, n \in Sizes \cup {125, 127, 65535, 65536}}
        \cup {Msg(k, n, f, mid, e) : k \in {"text", "binary"}, n \in Sizes, f \in {2, 3}, mid \in {"", "ping", "pong", "pingping"}, e \in {"", "first", "last"}}
Ctls == {Ctl("ping", 0), Ctl("ping", 4), Ctl("ping", 125), Ctl("pong", 4)}
Second == {Msg("text", 5, 1, "", ""), Msg("binary", 300, 2, "ping", ""), Msg("text", 0, 1, "", "")} \cup Ctls
Few == {Msg("text", 7, 1, "", ""), Msg("binary", 0, 1, "", ""), Msg("text", 9, 3, "ping", "last"), Ctl("ping", 4), Ctl("pong", 4)}
Ends == {"open", "close", "eof", "lost", "midhdr", "midframe", "midmsg"}
Read(a, s, e, ch) == [part |-> "sockread", a |-> a, script |-> s, end |-> e, chunk |-> ch]
Reads(a) == {Read(a, <<m>>, e, ch) : m \in Msgs \cup Ctls, e \in Ends, ch \in {0, 1}}
            \cup {Read(a, <<m, n>>, "open", ch) : m \in Msgs \cup Ctls, n \in Second, ch \in {0, 1}}
            \cup {Read(a, s, e, ch) : s \in Few \X Few \X Few, e \in {"open", "close"}, ch \in {0, 1}}
            \cup {Read(a, <<>>, e, 0) : e \in Ends}
IsMsg(x) == x.do = "msg"
\* every ping is answered with its own bytes, in order
PingsOf(x) == IF x.do = "ping" THEN <<x.size>> ELSE IF x.do = "msg" /\ x.frames > 1 THEN
                LET per == CASE x.mid = "ping" -> <<3>> [] x.mid = "pingping" -> <<3, 2>> [] OTHER -> <<>>
                IN IF x.frames = 2 THEN per ELSE per \o per
              ELSE <<>>
ReadWant(x) ==
  LET ms == SelectSeq(x.script, IsMsg)
  IN [msgs |-> [i \in 1 .. Len(ms) |-> [kind |-> ms[i].kind, size |-> ms[i].size]],
      pongs |-> FlattenSeq([i \in 1 .. Len(x.script) |-> PingsOf(x.script[i])]),
      end |-> "error"]

-----------------------------------------------------------------------------
\* Writing: what each of several goroutines writes arrives whole and in its order, also while pings are answered.
Writers == {<<1>>, <<130>>, <<70000>>, <<5, 6>>, <<200, 1, 70000>>, <<1, 1, 1, 1>>}
Write(a, ws, p) == [part |-> "sockwrite", a |-> a, ws |-> ws, pings |-> p]
Writes(a) == {Write(a, ws, p) : ws \in {<<w>> : w \in Writers} \cup (Writers \X Writers) \cup (IF Deep THEN Writers \X Writers \X Writers ELSE {<<x, y, z>> \in Writers \X Writers \X Writers : x = y \/ y = z}), p \in {0, 3}}
WriteWant(x) == [ws |-> x.ws, pongs |-> x.pings, masked |-> x.a.role = "client", bad |-> ""]

-----------------------------------------------------------------------------
\* Time: each operation has its own ten seconds.
Gaps == {0, 4, 9, 12}
Times(a) == {[part |-> "socktime", a |-> a, what |-> "read", gaps |-> g] : g \in UNION {[1 .. n -> Gaps] : n \in 1 .. 4}}
            \cup {[part |-> "socktime", a |-> a, what |-> "write", gaps |-> g] : g \in UNION {[1 .. n -> Gaps] : n \in 1 .. 4}}
            \cup {[part |-> "socktime", a |-> a, what |-> "stall", gaps |-> <<g>>] : g \in Gaps}
            \cup {[part |-> "socktime", a |-> a, what |-> "queue", gaps |-> <<g, h>>] : g \in {4, 9}, h \in {4, 9}}
RECURSIVE Upto(_)
Upto(g) == IF g = <<>> THEN <<>> ELSE IF Head(g) > 10 THEN <<"error">> ELSE <<"ok">> \o Upto(Tail(g))
TimeWant(x) == CASE x.what = "read" -> Upto(x.gaps)
                 [] x.what = "write" -> [i \in 1 .. Len(x.gaps) |-> "ok"]       \* pauses between writes do not matter
                 [] x.what = "stall" -> Upto(x.gaps)                             \* the peer takes nothing for so long
                 [] OTHER -> <<"ok", "ok">>                                       \* the second write waits for the first

Init == c \in {[part |-> k, a |-> a] : k \in {"r", "w", "t"}, a \in Adapters}
Next == c' \in (CASE c.part = "r" -> Reads(c.a) [] c.part = "w" -> Writes(c.a) [] c.part = "t" -> Times(c.a) [] OTHER -> {})
Spec == Init /\ [][Next]_c
Case == [part |-> c.part, in |-> c, want |-> CASE c.part = "sockread" -> ReadWant(c) [] c.part = "sockwrite" -> WriteWant(c) [] OTHER -> TimeWant(c)]
Emit == c.part \in {"r", "w", "t"} \/ PrintT("CASE " \o ToJson(Case))
=============================================================================
