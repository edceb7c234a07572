-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Behaviours of applications and their environment: what programs do with *)
(* neffos, and what networks and foreign peers do to it.  A behaviour is a *)
(* sequence of steps; the calls of one step run concurrently.  The state   *)
(* `g` keeps what the application believes (who is connected to what), so  *)
(* that most calls make sense and some deliberately do not.                *)
(* Nondeterminism is resolved by a seeded generator, so that behaviour     *)
(* number i of family f and seed s is always the same one.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Seed == atoi(IOEnv.SEED)
From == atoi(IOEnv.FROM)
Count == atoi(IOEnv.COUNT)
Fams == IOEnv.FAMS            \* one letter per family, picked in turn

-----------------------------------------------------------------------------
\* pseudo-random choices

PM(x) == LET v == 16807 * (x % 127773) - 2836 * (x \div 127773) IN IF v > 0 THEN v ELSE v + 2147483647
Mix(a, b) == PM((((a % 1000003) * 1009 + (b % 65521) * 7919) % 2147483646) + 1)
Rnd(g, salt) == PM(Mix(Mix(Mix(g.seed, g.c + 1), salt + 17), g.seed \div 1000))
R(g, salt, n) == (Rnd(g, salt) \div 11) % n
Pct(g, salt, p) == R(g, salt, 100) < p
Pick(g, salt, seq) == seq[1 + R(g, salt, Len(seq))]
PickSet(g, salt, S) == Pick(g, salt, SetToSortSeq(S, LAMBDA a, b : a < b))
PickIn(g, salt, pool, S) == Pick(g, salt, SelectSeq(pool, LAMBDA x : x \in S))
Tick(g) == [g EXCEPT !.c = @ + 1]

-----------------------------------------------------------------------------
\* the application

NsPool == <<"n1", "n2", "", "n;;s", "~un">>
RoomPool == <<"r1", "r2", ";r;3;", "~s">>
EvtPool == <<"x1", "x2", "r1", "r2", "R1", "e1", "k1", "d1", "z1", "x; ;y", "r;;~u", "u1", "w1">>

\* events w1 and u1 are declared on one side or on none
FullDecl(sd, ns) == {<<sd, ns, e>> : e \in {"x1", "x2", "r1", "r2", "R1", "e1", "k1", "d1", "z1", "x; ;y", "r;;~u", "h1", "H1"}}
Declared(g, nss, f) ==
  UNION {LET n == NsPool[j]
             sides == CASE j = 1 -> {"s", "c"}
                        [] OTHER -> LET x == R(g, 100 + j, 10) IN IF x = 0 THEN {"s"} ELSE IF x = 1 THEN {"c"} ELSE {"s", "c"}
         IN UNION {FullDecl(sd, n) \cup {<<sd, n, "">>} \cup (IF Pct(g, 120 + j, 40) THEN {<<sd, n, "w1">>} ELSE {})
                     \cup (IF n = "" /\ Pct(g, 130, 60) THEN {<<sd, n, "native">>} ELSE {}) : sd \in sides}
         : j \in nss}

Ser(S) == SetToSeq(S)

B == [op |-> "", k |-> 0, sd |-> "", ns |-> "", room |-> "", evt |-> "", body |-> "", bin |-> FALSE, ctx |-> 0, via |-> "",
      to |-> "", id |-> "", srv |-> 0, fk |-> "", msgs |-> <<>>, do |-> <<>>, res |-> "", hold |-> FALSE, ms |-> 0]

-----------------------------------------------------------------------------
\* families

\* ops: what is done, and how often relative to each other; par: calls per step; len: steps; conns: connections at most
FamOf(f) ==
  CASE f = "L" -> [name |-> "life", par |-> 3, len |-> 11, conns |-> 2, srvs |-> 1,
         ops |-> <<"connect", "connect", "connect", "connect", "disconnect", "disconnect", "join", "join", "join", "join", "leave", "leave",
                   "leaveall", "discall", "veto", "veto", "veto", "emit", "emit", "holdcb", "release", "close", "nest", "stale", "query", "expire", "cancels", "waitconnect", "waitonly">>]
    [] f = "M" -> [name |-> "msg", par |-> 4, len |-> 12, conns |-> 2, srvs |-> 1,
         ops |-> <<"connect", "connect", "connect", "join", "join", "join", "leave", "emit", "emit", "emit", "emit", "emit", "emit", "emit", "native", "ask", "ask",
                   "stale", "hold", "release", "disconnect", "garbage", "nest", "uask", "emits", "emits">>]
    [] f = "A" -> [name |-> "ask", par |-> 5, len |-> 11, conns |-> 2, srvs |-> 1,
         ops |-> <<"connect", "connect", "join", "ask", "ask", "ask", "ask", "ask", "ask", "emit", "emit", "uask", "uask", "hold", "hold", "release",
                   "nest", "nest", "expire", "close", "drop", "stall", "unstall", "leave", "disconnect", "late", "cancel", "cancel", "cancel", "cancels">>]
    [] f = "H" -> [name |-> "hs", par |-> 3, len |-> 9, conns |-> 4, srvs |-> 1,
         ops |-> <<"dial", "dial", "dialx", "dialx", "dialx", "dialx", "rawx", "rawx", "rawmsg", "rawmsg", "rawmsg", "release", "release", "connect", "emit", "ask",
                   "close", "drop", "srvuse", "srvuse", "rawdup", "earlymsg", "earlyx", "earlyx", "earlyx", "waitconnect", "expire">>]
    [] f = "B" -> [name |-> "bcast", par |-> 4, len |-> 12, conns |-> 4, srvs |-> 1,
         ops |-> <<"dial", "dial", "connect", "connect", "connect", "join", "join", "join", "bcast", "bcast", "bcast", "bcast", "bcast", "bcast", "sask", "sask",
                   "emit", "leave", "disconnect", "hold", "release", "close", "drop", "stall", "unstall", "dialx", "nest", "nestb", "nests", "bcasts", "bcasts", "bcasts">>]
    [] f = "R" -> [name |-> "reg", par |-> 4, len |-> 10, conns |-> 5, srvs |-> 1,
         ops |-> <<"dial", "dial", "dial", "dialx", "dialx", "rawx", "connect", "connect", "join", "close", "close", "drop", "query", "query", "srvclose",
                   "odscript", "nest", "release", "bcast", "expire", "emit", "rawmsg", "dialclose", "raceclose">>]
    [] f = "C" -> [name |-> "close", par |-> 4, len |-> 9, conns |-> 3, srvs |-> 1,
         ops |-> <<"dial", "connect", "connect", "connect", "join", "join", "join", "ask", "uask", "uask", "hold", "close", "close", "close", "drop", "srvclose",
                   "nest", "nest", "leave", "disconnect", "discall", "leaveall", "release", "bcast", "holdcb", "dialx", "emit", "late", "cancel", "cancels", "waitonly", "raceclose", "raceclose", "dialclose">>]
    [] f = "N" -> [name |-> "nest", par |-> 3, len |-> 11, conns |-> 3, srvs |-> 1,
         ops |-> <<"dial", "connect", "connect", "connect", "join", "join", "nest", "nest", "nest", "nest", "nestb", "nests", "nests", "emit", "ask", "ask", "leave", "disconnect",
                   "close", "bcast", "sask", "odscript", "dialx", "discall", "leaveall">>]
    [] f = "G" -> [name |-> "hostile", par |-> 3, len |-> 11, conns |-> 3, srvs |-> 1,
         ops |-> <<"dial", "rawx", "rawx", "rawmsg", "rawmsg", "rawmsg", "rawmsg", "rawmsg", "garbage", "garbage", "garbage", "connect", "connect", "join", "emit",
                   "ask", "bcast", "late", "close", "rawdup", "rawdup">>]
    [] f = "O" -> [name |-> "native", par |-> 4, len |-> 8, conns |-> 3, srvs |-> 1,
         ops |-> <<"dial", "native", "native", "native", "native", "rawnat", "rawnat", "nbcast", "close", "drop", "dialx", "query">>]
    [] f = "E" -> [name |-> "exc", par |-> 3, len |-> 12, conns |-> 4, srvs |-> 2,
         ops |-> <<"dial", "dial", "dial", "connect", "connect", "connect", "connect", "join", "join", "bcast", "bcast", "bcast", "bcast", "sask", "sask", "sask",
                   "leave", "disconnect", "close", "drop", "emit", "ask", "srvclose", "dialx", "nest", "bcasts", "dialclose">>]
    [] f = "X" -> [name |-> "live", par |-> 3, len |-> 11, conns |-> 4, srvs |-> 2,
         ops |-> <<"dial", "dial", "dial", "connect", "connect", "connect", "connect", "join", "join", "bcast", "bcast", "bcast", "bcast", "sask", "sask", "sask",
                   "leave", "disconnect", "disconnect", "close", "drop", "emit", "ask", "srvclose", "dialx", "nest", "bcasts", "dialclose">>]
    [] f = "S" -> [name |-> "sock", par |-> 4, len |-> 10, conns |-> 2, srvs |-> 1,
         ops |-> <<"dial", "connect", "connect", "join", "emit", "emit", "emit", "emit", "native", "ask", "ask", "ask", "bcast", "leave", "disconnect", "close", "drop",
                   "dialx", "hold", "release", "nest", "emits", "emits", "emits">>]
    [] f = "T" -> [name |-> "time", par |-> 3, len |-> 10, conns |-> 3, srvs |-> 1,
         ops |-> <<"dial", "connect", "connect", "join", "emit", "emit", "ask", "uask", "expire", "expire", "hold", "release", "stall", "unstall", "bcast", "leave",
                   "disconnect", "late", "nest", "cancel", "cancels">>]

    [] f = "K" -> [name |-> "store", par |-> 5, len |-> 9, conns |-> 2, srvs |-> 1,
         ops |-> <<"store", "store", "store", "store", "store", "store", "store", "store", "store", "store", "store", "store", "dial", "connect", "emit", "close", "drop">>]

\* with the real exchanges on a broker, in families X
ExcOf(g, f) == CASE f = "E" -> Pick(g, 148, <<"fake", "fake", "fake", "fakeref", "fake2", "fake2fail", "fake2ref">>)
                 [] f = "X" -> Pick(g, 148, <<"redis", "nats">>)
                 [] OTHER -> ""
\* what a nats subject cannot contain
Subj(exc, x) == IF exc = "nats" /\ x = "b;;c " THEN "bc" ELSE x

Cfg(g, f, nss) ==
  LET only == f = "O"
      decl == IF only THEN {<<"s", "", "native">>, <<"c", "", "native">>} ELSE Declared(g, nss, f)
      tm == f = "T"
  IN [decl |-> Ser(decl),
      any |-> IF only THEN <<>> ELSE Ser({a \in {<<"s", "n2">>, <<"c", "n1">>, <<"c", "n;;s">>} : (\E d \in decl : d[1] = a[1] /\ d[2] = a[2]) /\ Pct(g, 140 + Len(a[2]), 25)}),
      always |-> Pct(g, 141, 25), sync |-> Pct(g, 142, 25), oc |-> Pct(g, 143, 80) \/ f = "H",
      rt |-> IF tm /\ Pct(g, 144, 50) THEN 2000 ELSE 0, wt |-> IF tm \/ (f = "A" /\ Pct(g, 145, 30)) THEN 500 ELSE 0, crt |-> IF tm /\ Pct(g, 146, 30) THEN 2500 ELSE 0,
      tr |-> IF f = "S" THEN Pick(g, 147, <<"gob-gob", "gob-gor", "gor-gob", "gor-gor">>) ELSE "mem",
      srvs |-> FamOf(f).srvs,
      exc |-> ExcOf(g, f),
      only |-> IF only THEN (IF Pct(g, 149, 70) THEN "cs" ELSE "s") ELSE ""]

G0(i) ==
  LET f == SubSeq(Fams, 1 + (i % Len(Fams)), 1 + (i % Len(Fams)))
      s == PM(Mix(Mix(Seed * 31 + 7, i), 99))
      g == [seed |-> s, c |-> 0, b |-> 0]
      nss == LET a == 1 + R(g, 3, 5) b == 1 + R(g, 4, 5) IN IF ExcOf(g, f) = "nats" THEN {1, 2} \cup (IF a > 3 THEN {5} ELSE {}) ELSE IF f = "X" THEN {1, a, b} \ {3} ELSE {1, a, b}
  IN [id |-> i, f |-> f, seed |-> s, c |-> 1, b |-> 0, conn |-> <<>>, cfg |-> Cfg(g, f, nss), nss |-> {NsPool[j] : j \in nss},
      steps |-> <<>>, nest |-> 0, tok |-> 0, left |-> FamOf(f).len + R(g, 5, 4), par |-> 1 + R(g, 6, FamOf(f).par), down |-> {},
      preempt |-> Pick(g, 7, <<"0.0", "0.05", "0.2", "0.5", "-0.01", "-0.03">>), pct |-> Pick(g, 8, <<0, 0, 0, 3>>)]

-----------------------------------------------------------------------------
\* picking

Live(g) == {k \in 1 .. Len(g.conn) : ~g.conn[k].dead /\ ~g.conn[k].raw}
Raws(g) == {k \in 1 .. Len(g.conn) : g.conn[k].raw}
AllK(g) == 1 .. Len(g.conn)
PickK(g, s) == IF Live(g) # {} /\ ~Pct(g, s, 6) THEN PickSet(g, s + 1, Live(g)) ELSE IF AllK(g) # {} THEN PickSet(g, s + 1, AllK(g)) ELSE 1
PickSd(g, s) == Pick(g, s, <<"c", "c", "s">>)
PickNs(g, s) == PickIn(g, s, NsPool, g.nss)
NsOf(g, k, s) == IF k \in AllK(g) /\ g.conn[k].ns # {} /\ ~Pct(g, s, 15) THEN PickIn(g, s + 1, NsPool, g.conn[k].ns) ELSE PickNs(g, s + 1)
RoomOf(g, k, ns, s) == LET rs == IF k \in AllK(g) THEN {x[2] : x \in {y \in g.conn[k].rooms : y[1] = ns}} ELSE {}
                       IN IF rs # {} /\ ~Pct(g, s, 15) THEN PickIn(g, s + 1, RoomPool, rs) ELSE Pick(g, s + 1, RoomPool)
MaybeRoom(g, k, ns, s, p) == IF Pct(g, s, p) THEN RoomOf(g, k, ns, s + 1) ELSE ""
Body(g, s) == LET l == IF g.f = "S" THEN <<"b", "N", "S", "L", "b">> ELSE <<"b", "b", "N", "S", "B", "L">>
              IN (IF Pct(g, s, 3) THEN "L" ELSE Pick(g, s + 1, SubSeq(l, 1, Len(l) - 1))) \o ToString(g.b)
\* a text that is not valid UTF-8 is not a websocket text message
BodyFor(g, s, bin) == IF bin /\ Pct(g, s, 60) THEN "B" \o ToString(g.b) ELSE Body(g, s)
EvtOf(g, s) == Pick(g, s, EvtPool)
AskEvt(g, s) == Pick(g, s, <<"r1", "r1", "r2", "r2", "R1", "e1", "k1", "d1", "z1", "r;;~u">>)
\* a deadline, a context that is cancelled some time (-2), none (0, -1)
Ctx(g, s, p) == IF Pct(g, s, p) THEN Pick(g, s + 1, <<40, 200, 1000, 4000, -2, -2>>) ELSE IF Pct(g, s + 2, 50) THEN 0 ELSE -1
ErrName(g, s) == Pick(g, s, <<"known", "dyn", "t:no;way", "t:nope", "badns", "empty", "t:bad rooms", "t:a bad namespace", "t: known; error\n", "t:Known; Error", "t:BAD NAMESPACE">>)
NewId(g, s) == Pick(g, s, <<"a", "a", "aa", Subj(g.cfg.exc, "b;;c "), "id" \o ToString(Len(g.conn) + 1), "id" \o ToString(Len(g.conn) + 1), IF g.cfg.exc # "" THEN "refused" ELSE "">>)

PlainMsg(g, s, k) ==
  LET ns == NsOf(g, k, s) bin == Pct(g, s + 3, 15) IN
  [ns |-> ns, room |-> MaybeRoom(g, k, ns, s + 4, 35), evt |-> Pick(g, s + 6, <<"x1", "x2", "x; ;y", "r1">>),
   body |-> BodyFor([g EXCEPT !.b = g.b * 1000 + s], s + 7, bin), bin |-> bin,
   to |-> IF Pct(g, s + 9, 20) THEN Pick(g, s + 10, <<"a", "a", "aa", "A", Subj(g.cfg.exc, "b;;c "), "id1", "id2", "nobody">>) ELSE "", nat |-> FALSE]

\* the calls that a callback makes: same connection and side unless k is set
NestedOp(g, s, free, sd0) ==
  LET kind == Pick(g, s, <<"emit", "emit", "ask", "ask", "query", "connect", "join", "join", "leave", "disconnect", "close", "bcast", "discall", "leaveall", "sask", IF sd0 = "s" THEN "other" ELSE "emit", "native">>)
      ns == PickNs(g, s + 1)
      ctx == IF free THEN (IF Pct(g, s + 2, 50) THEN 0 ELSE -1) ELSE 3000
      room == Pick(g, s + 3, RoomPool)
      b == "b" \o ToString(g.b) \o "n" \o ToString(s)
      k == PickK(g, s + 4)
  IN CASE kind = "emit" -> [B EXCEPT !.op = "emit", !.ns = ns, !.evt = "x1", !.body = b, !.via = "write"]
       [] kind = "native" -> [B EXCEPT !.op = "emit", !.ns = ns, !.evt = "x2", !.body = b, !.via = "ns"]
       [] kind = "ask" -> [B EXCEPT !.op = "ask", !.ns = ns, !.evt = AskEvt(g, s + 5), !.body = b, !.ctx = ctx, !.via = "conn"]
       [] kind = "query" -> [B EXCEPT !.op = "query", !.ns = ns, !.room = room]
       [] kind = "connect" -> [B EXCEPT !.op = "connect", !.ns = ns, !.ctx = ctx]
       [] kind = "join" -> [B EXCEPT !.op = "join", !.ns = ns, !.room = room, !.ctx = ctx]
       [] kind = "leave" -> [B EXCEPT !.op = "leave", !.ns = ns, !.room = room, !.ctx = ctx]
       [] kind = "disconnect" -> [B EXCEPT !.op = "disconnect", !.ns = ns, !.ctx = ctx]
       [] kind = "discall" -> [B EXCEPT !.op = "discall", !.ctx = ctx]
       [] kind = "leaveall" -> [B EXCEPT !.op = "leaveall", !.ns = ns, !.ctx = ctx]
       [] kind = "close" -> [B EXCEPT !.op = "close", !.via = "conn"]
       [] kind = "bcast" -> [B EXCEPT !.op = "bcast", !.fk = "none", !.srv = 1,
                               !.msgs = <<[ns |-> ns, room |-> IF Pct(g, s + 6, 30) THEN "r1" ELSE "", evt |-> "x2", body |-> b, bin |-> FALSE, to |-> "", nat |-> FALSE]>>]
       [] kind = "sask" -> [B EXCEPT !.op = "sask", !.srv = 1, !.ns = ns, !.room = IF Pct(g, s + 6, 30) THEN "r1" ELSE "", !.evt = "r2", !.body = b, !.ctx = 2000]
       [] kind = "other" -> [B EXCEPT !.op = "ask", !.k = k, !.sd = "s", !.ns = ns, !.evt = "r1", !.body = b, !.ctx = 3000, !.via = "conn"]

LifeEvt(g, s) == Pick(g, s, <<"connect", "connected", "disconnect", "join", "joined", "leave", "left">>)

\* wait tokens of foreign peers
Tok(g, toServer) == (IF toServer THEN "$9" ELSE "8") \o ToString(g.c)

\* the call that makes lifecycle event e happen
Trigger(g, e, k, sd, ns, room, ctx) ==
  IF ~Pct(g, 27, 80) THEN <<>>
  ELSE <<CASE e \in {"connect", "connected"} -> [B EXCEPT !.op = "connect", !.k = k, !.sd = sd, !.ns = ns, !.ctx = ctx]
           [] e = "disconnect" -> [B EXCEPT !.op = "disconnect", !.k = k, !.sd = sd, !.ns = ns, !.ctx = ctx]
           [] e \in {"join", "joined"} -> [B EXCEPT !.op = "join", !.k = k, !.sd = sd, !.ns = ns, !.room = room, !.ctx = ctx]
           [] OTHER -> [B EXCEPT !.op = "leave", !.k = k, !.sd = sd, !.ns = ns, !.room = room, !.ctx = ctx]>>

\* one kind of thing to do: a sequence of ops for the current step
Make(g, kind) ==
  LET k == PickK(g, 1)
      sd == PickSd(g, 3)
      ns == NsOf(g, k, 4)
      room == RoomOf(g, k, ns, 6)
      lctx == Ctx(g, 8, 25)
      bin == Pct(g, 11, 15)
      full == Len(g.conn) >= FamOf(g.f).conns
      free == g.nest = 0
      srv == 1 + R(g, 13, g.cfg.srvs)
      nk == Len(g.conn) + 1
      \* a native-only server is for foreign clients
      dial == [B EXCEPT !.op = IF g.cfg.only = "s" THEN "rawdial" ELSE "dial", !.k = nk, !.id = NewId(g, 14), !.srv = srv, !.via = IF Pct(g, 15, 30) THEN "custom" ELSE "", !.evt = IF Pct(g, 19, 30) THEN "connect" ELSE "", !.ns = IF Pct(g, 19, 30) THEN ns ELSE ""]
      rk == IF Raws(g) # {} THEN PickSet(g, 16, Raws(g)) ELSE 0
      nested == [j \in 1 .. 1 + R(g, 17, 2) |-> NestedOp(g, 200 + 20 * j, free, PickSd(g, 18))]
      sc == [B EXCEPT !.op = "script", !.k = k, !.sd = PickSd(g, 18), !.ns = ns]
  IN CASE kind = "dial" -> IF full THEN <<>> ELSE <<dial>>
       [] kind = "dialx" -> IF full THEN <<>>
            ELSE <<[dial EXCEPT !.hold = Pct(g, 20, 55), !.res = IF Pct(g, 21, 40) THEN Pick(g, 22, <<"known", "dyn", "t:no;pe", "badns", "t:denied", "t:bad rooms\n">>) ELSE "",
                      !.do = IF g.cfg.only # "" THEN (IF Pct(g, 23, 40) THEN <<IF Pct(g, 24, 50) THEN [B EXCEPT !.op = "close"] ELSE [B EXCEPT !.op = "query"]>> ELSE <<>>)
                             ELSE IF Pct(g, 28, 12) THEN LET n == PickNs(g, 26) IN
                               <<[B EXCEPT !.op = "connect", !.ns = n], [B EXCEPT !.op = "bcast", !.fk = "none", !.srv = srv, !.msgs = <<[ns |-> n, room |-> "", evt |-> "x1", body |-> "p" \o ToString(g.b), bin |-> FALSE, to |-> "", nat |-> FALSE]>>]>>
                             ELSE IF Pct(g, 23, 45) THEN [j \in 1 .. 1 + R(g, 24, 2) |->
                               Pick(g, 24 + j, <<[B EXCEPT !.op = "connect", !.ns = PickNs(g, 26)], [B EXCEPT !.op = "emit", !.ns = PickNs(g, 26), !.evt = "x1", !.body = "o" \o ToString(g.b), !.via = "write"],
                                        [B EXCEPT !.op = "query", !.ns = ns], [B EXCEPT !.op = "close"],
                                        [B EXCEPT !.op = "bcast", !.fk = "none", !.srv = srv, !.msgs = <<[ns |-> ns, room |-> "", evt |-> "x1", body |-> "q" \o ToString(g.b), bin |-> FALSE, to |-> "", nat |-> FALSE]>>],
                                        [B EXCEPT !.op = "connect", !.ns = PickNs(g, 27), !.ctx = 500]>>)] ELSE <<>>]>>
       [] kind = "rawx" -> IF full THEN <<>>
            ELSE <<[dial EXCEPT !.op = "rawdial", !.hold = Pct(g, 20, 35), !.res = IF Pct(g, 21, 20) THEN "t:denied" ELSE "",
                      !.do = IF g.cfg.only = "" /\ Pct(g, 23, 25) THEN <<[B EXCEPT !.op = "connect", !.ns = ns, !.ctx = Pick(g, 24, <<200, 500, 20000>>)]>> ELSE <<>>]>>
                 \o (IF Pct(g, 22, 60) THEN <<[B EXCEPT !.op = "rawsend", !.k = nk, !.via = "raw", !.body = "M"]>> ELSE <<>>)
       [] kind = "earlyx" -> IF full THEN <<>> ELSE   \* a raw client that sends (many) messages before it asks to be accepted
            LET n == 1 + (IF Pct(g, 28, 25) THEN 8 + R(g, 20, 70) ELSE R(g, 20, 7))
                ns2 == PickNs(g, 27)
                m == [B EXCEPT !.op = "rawsend", !.k = nk, !.via = "msg", !.ns = IF Pct(g, 29, 85) THEN ns ELSE ns2]
                ack == [m EXCEPT !.via = "raw", !.ns = "", !.body = "M"]
                con(x) == [m EXCEPT !.ns = x, !.evt = "connect", !.id = "$9" \o ToString(g.c) \o (IF x = ns THEN "a" ELSE "b")]
                msg(j) == IF Pct(g, 1000 + j, 20) THEN [m EXCEPT !.evt = "r1", !.id = "$9" \o ToString(g.c) \o "j" \o ToString(j), !.body = "b" \o ToString(g.b) \o "j" \o ToString(j), !.bin = Pct(g, 1100 + j, 40)]
                          ELSE IF Pct(g, 1200 + j, 12) THEN [m EXCEPT !.via = "raw", !.body = "N" \o ToString(g.b) \o "j" \o ToString(j), !.bin = Pct(g, 1100 + j, 40)]
                          ELSE [m EXCEPT !.evt = Pick(g, 1300 + j, <<"x1", "x2", "r1">>), !.body = Pick(g, 1400 + j, <<"b", "B">>) \o ToString(g.b) \o "j" \o ToString(j), !.bin = Pct(g, 1100 + j, 40)]
            IN <<[dial EXCEPT !.op = "rawdial", !.hold = Pct(g, 21, 35), !.res = IF Pct(g, 22, 10) THEN "t:denied" ELSE ""]>>
               \o <<con(ns)>> \o (IF ns2 # ns /\ Pct(g, 23, 40) THEN <<con(ns2)>> ELSE <<>>)
               \o [j \in 1 .. n |-> msg(j)]
               \o (IF Pct(g, 24, 90) THEN <<ack>> ELSE <<>>)
               \o (IF Pct(g, 25, 50) THEN [j \in 1 .. 1 + R(g, 26, 2) |-> msg(n + j)] ELSE <<>>)
       [] kind = "rawmsg" -> IF rk = 0 THEN <<>> ELSE
            LET c == Pick(g, 20, <<"ack", "connect", "connect", "join", "evt", "evt", "evt", "req", "leave", "disconnect", "raw", "raw", "reply", "life">>)
                m == [B EXCEPT !.op = "rawsend", !.k = rk, !.via = "msg", !.ns = ns, !.body = Body(g, 21)]
            IN <<CASE c = "ack" -> [m EXCEPT !.via = "raw", !.body = "M"]
                   [] c \in {"connect", "disconnect"} -> [m EXCEPT !.evt = c, !.body = "", !.id = Tok(g, TRUE)]
                   [] c \in {"join", "leave"} -> [m EXCEPT !.evt = c, !.body = "", !.room = Pick(g, 23, RoomPool), !.id = Tok(g, TRUE)]
                   [] c = "evt" -> [m EXCEPT !.evt = Pick(g, 24, <<"x1", "x2", "r1", "e1", "w1">>)]
                   [] c = "req" -> [m EXCEPT !.evt = Pick(g, 24, <<"r1", "r2", "e1">>), !.id = Tok(g, TRUE)]
                   [] c = "reply" -> [m EXCEPT !.evt = "r1", !.id = "7" \o ToString(g.c)]
                   [] c = "life" -> [m EXCEPT !.evt = Pick(g, 25, <<"connected", "joined", "left", "connect", "connect", "join", "join", "leave", "disconnect">>), !.room = Pick(g, 23, <<"", "r1">>), !.body = ""]
                   [] c = "raw" -> [m EXCEPT !.via = "raw", !.body = Pick(g, 26, <<"b", "S", "B", "A", "H", "b;;", "N">>) \o ToString(g.b), !.bin = bin]>>
       [] kind = "rawnat" -> IF rk = 0 THEN (IF full \/ g.cfg.only # "s" THEN <<>> ELSE <<[dial EXCEPT !.op = "rawdial"]>>)
            ELSE <<[B EXCEPT !.op = "rawsend", !.k = rk, !.via = "raw", !.body = Pick(g, 26, <<"b", "S", "B", "W", "M", "A", "L", "N", "N">>) \o ToString(g.b), !.bin = bin]>>
       [] kind = "garbage" ->
            LET to == Pick(g, 20, <<"s", "s", "c">>)
                c == Pick(g, 21, <<"raw", "raw", "evt", "evt", "life", "reply", "ack">>)
                m == [B EXCEPT !.op = "inject", !.k = k, !.sd = to, !.via = "msg", !.ns = PickNs(g, 22), !.body = Body(g, 23)]
            IN IF ~g.cfg.oc /\ FALSE THEN <<>> ELSE
               <<CASE c = "raw" -> [m EXCEPT !.via = "raw", !.body = Pick(g, 26, <<"b", "S", "B", "A", "H", "b;;", "L", "N">>) \o ToString(g.b), !.bin = bin]
                   [] c = "ack" -> [m EXCEPT !.via = "raw", !.body = IF to = "s" THEN "M" ELSE "Aid"]
                   [] c = "evt" -> [m EXCEPT !.evt = Pick(g, 24, <<"x1", "x2", "w1">>), !.room = Pick(g, 25, <<"", "", "r1">>)]
                   [] c = "life" -> [m EXCEPT !.evt = Pick(g, 24, <<"connected", "joined", "left", "connect", "join", "join", "leave", "disconnect">>), !.room = Pick(g, 25, <<"", "r1", "r1">>), !.body = ""]
                   [] c = "reply" -> [m EXCEPT !.evt = "r1", !.id = (IF to = "s" THEN "7" ELSE "$7") \o ToString(g.c)]>>
       [] kind = "connect" -> <<[B EXCEPT !.op = "connect", !.k = k, !.sd = sd, !.ns = PickNs(g, 20), !.ctx = lctx]>>
       [] kind = "waitconnect" -> <<[B EXCEPT !.op = "waitconnect", !.k = k, !.sd = "c", !.ns = ns, !.ctx = lctx],
                                    [B EXCEPT !.op = "connect", !.k = k, !.sd = "s", !.ns = ns, !.ctx = lctx]>>
       [] kind = "waitonly" -> <<[B EXCEPT !.op = "waitconnect", !.k = k, !.sd = "c", !.ns = PickNs(g, 20), !.ctx = lctx]>> \o (IF Pct(g, 21, 40) THEN <<[B EXCEPT !.op = "close", !.k = k, !.sd = sd]>> ELSE <<>>)
       [] kind = "disconnect" -> <<[B EXCEPT !.op = "disconnect", !.k = k, !.sd = sd, !.ns = ns, !.ctx = lctx]>>
       [] kind = "discall" -> <<[B EXCEPT !.op = "discall", !.k = k, !.sd = sd, !.ctx = lctx]>>
       [] kind = "join" -> <<[B EXCEPT !.op = "join", !.k = k, !.sd = sd, !.ns = ns, !.room = Pick(g, 20, RoomPool), !.ctx = lctx]>>
       [] kind = "leave" -> <<[B EXCEPT !.op = "leave", !.k = k, !.sd = sd, !.ns = ns, !.room = room, !.ctx = lctx]>>
       [] kind = "leaveall" -> <<[B EXCEPT !.op = "leaveall", !.k = k, !.sd = sd, !.ns = ns, !.ctx = lctx]>>
       [] kind = "stale" -> LET op == Pick(g, 20, <<"disconnect", "leave", "emit", "emit", "leaveall", "join", "ask">>) IN
            <<[B EXCEPT !.op = op, !.k = k, !.sd = sd, !.ns = ns, !.room = IF op \in {"leave", "join"} \/ (op = "emit" /\ Pct(g, 21, 50)) THEN room ELSE "",
                 !.evt = "x1", !.body = "b" \o ToString(g.b), !.via = "stale", !.ctx = 500]>>
       [] kind = "emit" ->
            LET r == MaybeRoom(g, k, ns, 21, 35) IN
            <<[B EXCEPT !.op = "emit", !.k = k, !.sd = PickSd(g, 20), !.ns = ns, !.room = r, !.evt = EvtOf(g, 23), !.bin = bin, !.body = BodyFor(g, 24, bin),
                 !.via = IF r # "" THEN Pick(g, 26, <<"room", "write", "staleroom">>) ELSE Pick(g, 26, <<"ns", "ns", "write">>)]>>
       [] kind = "native" -> <<[B EXCEPT !.op = "native", !.k = k, !.sd = PickSd(g, 20), !.bin = bin,
                                  !.body = IF g.cfg.only # "" THEN Pick(g, 24, IF bin THEN <<"b", "S", "B", "W", "N">> ELSE <<"b", "S", "L", "W", "N">>) \o ToString(g.b) ELSE "b" \o ToString(g.b)]>>
       [] kind = "ask" -> <<[B EXCEPT !.op = "ask", !.k = k, !.sd = PickSd(g, 20), !.ns = ns, !.room = MaybeRoom(g, k, ns, 21, 15), !.evt = AskEvt(g, 23), !.bin = bin,
                               !.body = BodyFor(g, 24, bin), !.ctx = lctx, !.via = Pick(g, 26, <<"ns", "conn">>)]>>
       [] kind = "uask" -> <<[B EXCEPT !.op = "ask", !.k = k, !.sd = PickSd(g, 20), !.ns = ns, !.evt = Pick(g, 23, <<"x1", "u1", "w1", "h1">>), !.body = "b" \o ToString(g.b),
                                !.ctx = Ctx(g, 24, 60), !.via = "conn"]>>
       [] kind = "hold" -> <<[B EXCEPT !.op = IF Pct(g, 20, 40) THEN "ask" ELSE "emit", !.k = k, !.sd = PickSd(g, 21), !.ns = ns, !.evt = Pick(g, 22, <<"h1", "H1", "H1">>),
                                !.body = "b" \o ToString(g.b), !.ctx = Ctx(g, 23, 40), !.via = "conn"]>>
       [] kind = "late" -> \* a reply that comes after its request was given up
            <<[B EXCEPT !.op = "ask", !.k = k, !.sd = PickSd(g, 21), !.ns = ns, !.evt = "H1", !.body = "b" \o ToString(g.b), !.ctx = 40, !.via = "conn"], [B EXCEPT !.op = "adv", !.ms = 60]>>
       [] kind = "cancel" -> \* a reply and the end of its context at the same time
            LET ev == Pick(g, 20, <<"r1", "r2", "e1", "H1">>)
                n == 1 + R(g, 21, 3)
                a == [B EXCEPT !.op = "ask", !.k = k, !.ns = ns, !.ctx = Pick(g, 28, <<-2, -3, -3>>), !.via = "conn"]
            IN [j \in 1 .. n |-> [a EXCEPT !.sd = PickSd(g, 22 + j), !.evt = ev, !.body = "b" \o ToString(g.b) \o "j" \o ToString(j)]]
               \o (IF Pct(g, 26, 40) THEN <<[B EXCEPT !.op = "release", !.k = k]>> ELSE <<>>) \o <<[B EXCEPT !.op = "cancel", !.k = IF Pct(g, 27, 20) THEN 0 ELSE k]>>
       [] kind = "cancels" ->
            LET op == Pick(g, 20, <<"connect", "join", "leave", "disconnect", "join", "discall", "leaveall">>) IN
            <<[B EXCEPT !.op = op, !.k = k, !.sd = sd, !.ns = ns, !.room = IF op \in {"join", "leave"} THEN room ELSE "", !.ctx = Pick(g, 28, <<-2, -3>>)], [B EXCEPT !.op = "cancel", !.k = k]>>
       [] kind = "release" -> <<[B EXCEPT !.op = "release", !.k = IF Pct(g, 20, 50) THEN 0 ELSE k]>>
       [] kind = "expire" -> <<[B EXCEPT !.op = "adv", !.ms = Pick(g, 20, <<60, 300, 1100, 4100, 11000>>)]>>
       [] kind = "query" -> <<[B EXCEPT !.op = "query", !.k = k, !.sd = sd, !.ns = ns, !.room = room, !.srv = srv]>>
       [] kind = "store" -> LET kk == IF AllK(g) = {} THEN 1 ELSE PickSet(g, 20, AllK(g)) IN
            [j \in 1 .. 1 + R(g, 21, 3) |->
               [B EXCEPT !.op = "store", !.k = kk, !.sd = Pick(g, 22, <<"c", "s", "s">>), !.to = Pick(g, 24 + j \div 3, <<"a", "a", "b", "">>),
                  !.evt = Pick(g, 26 + j, <<"inc", "inc", "inc", "dec", "get", "get", "set", "set">>), !.via = Pick(g, 30 + j, <<"i", "i", "s", "nil">>), !.ms = g.b * 10 + j]]
       [] kind = "close" -> <<[B EXCEPT !.op = "close", !.k = k, !.sd = sd, !.via = IF Pct(g, 20, 40) THEN "conn" ELSE ""]>>
                            \o (IF Pct(g, 21, 20) THEN <<[B EXCEPT !.op = "close", !.k = k, !.sd = PickSd(g, 22)]>> ELSE <<>>)
       [] kind = "raceclose" -> \* a call and the end of its connection at the same time
            LET op == Pick(g, 20, <<"connect", "connect", "join", "join", "leave", "disconnect", "ask", "emit">>)
                a == [B EXCEPT !.op = op, !.k = k, !.sd = sd, !.ns = IF op = "connect" THEN PickNs(g, 21) ELSE ns, !.room = IF op \in {"join", "leave"} THEN Pick(g, 22, RoomPool) ELSE "",
                        !.evt = IF op \in {"ask", "emit"} THEN "r1" ELSE "", !.body = IF op \in {"ask", "emit"} THEN "b" \o ToString(g.b) ELSE "", !.via = IF op \in {"ask", "emit"} THEN "conn" ELSE "", !.ctx = lctx]
            IN <<a, CASE Pct(g, 23, 15) -> [B EXCEPT !.op = "drop", !.k = k] [] OTHER -> [B EXCEPT !.op = "close", !.k = k, !.sd = PickSd(g, 24), !.via = IF Pct(g, 25, 40) THEN "conn" ELSE ""]>>
       [] kind = "dialclose" -> \* a connection arrives while the server (or the connection) ends
            IF full THEN <<>> ELSE <<dial, IF Pct(g, 26, 30) THEN [B EXCEPT !.op = "srvclose", !.srv = srv] ELSE [B EXCEPT !.op = "close", !.k = nk, !.sd = "s"]>>
       [] kind = "drop" -> <<[B EXCEPT !.op = "drop", !.k = k]>>
       [] kind = "srvclose" -> IF g.left > 3 /\ Pct(g, 20, 70) THEN <<>> ELSE <<[B EXCEPT !.op = "srvclose", !.srv = srv]>>
       [] kind = "stall" -> <<[B EXCEPT !.op = "stall", !.k = k, !.sd = Pick(g, 20, <<"s", "s", "c">>)]>>
       [] kind = "unstall" -> <<[B EXCEPT !.op = "unstall", !.k = k, !.sd = "s"], [B EXCEPT !.op = "unstall", !.k = k, !.sd = "c"]>>
       [] kind = "veto" -> LET e == Pick(g, 20, <<"connect", "connect", "join", "join", "disconnect", "leave", "connected", "joined">>)
                               n == IF e = "connect" THEN PickNs(g, 22) ELSE ns IN
            <<[sc EXCEPT !.evt = e, !.room = IF e \in {"join", "leave", "joined"} THEN room ELSE "", !.res = IF Pct(g, 24, 15) THEN "rep" ELSE ErrName(g, 21), !.ns = n]>> \o Trigger(g, e, k, sd, n, room, lctx)
       [] kind = "holdcb" -> LET e == LifeEvt(g, 20) IN
            <<[sc EXCEPT !.evt = e, !.room = IF e \in {"join", "joined", "leave", "left"} THEN room ELSE "", !.hold = TRUE, !.res = IF Pct(g, 21, 20) THEN ErrName(g, 22) ELSE ""]>>
              \o Trigger(g, e, k, sd, ns, room, lctx)
       [] kind = "nest" ->
            LET e == IF Pct(g, 20, 50) THEN LifeEvt(g, 21) ELSE Pick(g, 21, <<"u:x1", "u:r1", "u:x2">>)
                user == SubSeq(e, 1, 2) = "u:"
                r == IF e \in {"join", "joined", "leave", "left"} THEN room ELSE ""
                s2 == [sc EXCEPT !.evt = e, !.room = r, !.do = nested, !.res = IF Pct(g, 22, 10) THEN ErrName(g, 23) ELSE IF user THEN Pick(g, 24, <<"rep", "nil">>) ELSE ""]
            IN <<s2>> \o (IF user /\ Pct(g, 25, 80) THEN <<[B EXCEPT !.op = IF Pct(g, 26, 50) THEN "ask" ELSE "emit", !.k = k, !.sd = IF s2.sd = "s" THEN "c" ELSE "s", !.ns = ns,
                                                            !.evt = SubSeq(e, 3, Len(e)), !.body = "b" \o ToString(g.b), !.via = "conn", !.ctx = 6000]>>
                          ELSE IF ~user THEN Trigger(g, e, k, sd, ns, room, lctx) ELSE <<>>)
       [] kind = "nestb" ->
            <<[sc EXCEPT !.evt = "u:x1", !.sd = "s", !.do = <<[B EXCEPT !.op = "bcast", !.fk = "conn", !.k = k, !.srv = srv, !.msgs = <<PlainMsg(g, 300, k)>>]>>],
              [B EXCEPT !.op = "emit", !.k = k, !.sd = "c", !.ns = ns, !.evt = "x1", !.body = "b" \o ToString(g.b), !.via = "write"]>>
       [] kind = "nests" -> \* a callback of the server asks all connections (or its own)
            LET r == MaybeRoom(g, k, ns, 30, 40) IN
            <<[sc EXCEPT !.evt = Pick(g, 20, <<"u:x1", "u:x1", "joined", "connected", "leave", "left">>), !.sd = "s", !.room = IF Pct(g, 21, 50) THEN room ELSE "",
                 !.do = <<[B EXCEPT !.op = "sask", !.srv = srv, !.ns = ns, !.room = r, !.evt = Pick(g, 22, <<"r1", "r2", "e1">>), !.body = "b" \o ToString(g.b) \o "s",
                             !.to = IF Pct(g, 23, 40) /\ k \in AllK(g) THEN g.conn[k].id ELSE "", !.ctx = 2000]>>],
              [B EXCEPT !.op = "emit", !.k = k, !.sd = "c", !.ns = ns, !.evt = "x1", !.body = "b" \o ToString(g.b), !.via = "write"]>>
       [] kind = "odscript" -> <<[B EXCEPT !.op = "script", !.k = k, !.evt = "od", !.do = <<NestedOp(g, 200, TRUE, "s")>>]>>
       [] kind = "srvuse" -> IF AllK(g) = {} THEN <<>> ELSE
            LET op == Pick(g, 20, <<"emit", "connect", "connect", "close", "join">>) IN
            <<[B EXCEPT !.op = op, !.k = Len(g.conn), !.sd = "s", !.ns = ns, !.room = IF op = "join" THEN Pick(g, 21, RoomPool) ELSE "", !.evt = "x1", !.body = "b" \o ToString(g.b), !.via = "write", !.ctx = 1000]>>
       [] kind = "earlymsg" -> IF rk = 0 THEN <<>> ELSE
            [j \in 1 .. 1 + R(g, 20, 4) |->
               IF j = 1 /\ Pct(g, 21, 70) THEN [B EXCEPT !.op = "rawsend", !.k = rk, !.via = "msg", !.ns = ns, !.evt = "connect", !.id = Tok(g, TRUE)]
               ELSE [B EXCEPT !.op = "rawsend", !.k = rk, !.via = "msg", !.ns = ns, !.evt = Pick(g, 22 + j, <<"x1", "x2", "r1">>), !.body = "b" \o ToString(g.b) \o "j" \o ToString(j)]]
       [] kind = "bcast" ->
            LET fk == IF g.cfg.exc # "" THEN Pick(g, 20, <<"none", "none", "conn", "ns">>) ELSE Pick(g, 20, <<"none", "none", "none", "conn", "conn", "ns", "room", "id">>)
                n == 1 + (IF Pct(g, 21, 40) THEN R(g, 22, 3) ELSE 0)
                via == IF fk = "none" /\ Pct(g, 23, 25) THEN Pick(g, 24, <<"ns", "others">>) ELSE ""
            IN <<[B EXCEPT !.op = "bcast", !.k = IF fk = "none" /\ via = "" THEN 0 ELSE k, !.srv = srv, !.fk = fk, !.via = via, !.ns = ns, !.room = IF fk = "room" THEN room ELSE "",
                    !.id = IF fk = "id" THEN Pick(g, 25, <<"a", "b;;c ", "id1", "nobody">>) ELSE "", !.msgs = [j \in 1 .. n |-> PlainMsg(g, 300 + 20 * j, k)]]>>
       [] kind = "bcasts" -> \* several broadcasts at once
            [j \in 1 .. 3 + R(g, 20, 4) |->
               LET own == Pct(g, 30 + j, 25) IN
               [B EXCEPT !.op = "bcast", !.k = IF own THEN k ELSE 0, !.srv = 1 + R(g, 40 + j, g.cfg.srvs), !.fk = IF own THEN Pick(g, 50 + j, <<"conn", "ns">>) ELSE "none", !.ns = ns,
                  !.msgs = [i \in 1 .. 1 + (IF Pct(g, 60 + j, 30) THEN 1 ELSE 0) |->
                     IF Pct(g, 70 + 10 * i + j, 75) THEN [PlainMsg(g, 300 + 40 * j + 20 * i, k) EXCEPT !.ns = ns, !.room = "", !.to = ""] ELSE PlainMsg(g, 300 + 40 * j + 20 * i, k)]]]
       [] kind = "emits" -> \* several goroutines write to one connection
            [j \in 1 .. 3 + R(g, 20, 4) |->
               LET bn == Pct(g, 30 + j, 30) IN
               [B EXCEPT !.op = IF Pct(g, 40 + j, 80) THEN "emit" ELSE "ask", !.k = k, !.sd = IF Pct(g, 50 + j, 75) THEN sd ELSE PickSd(g, 60 + j), !.ns = ns, !.evt = Pick(g, 70 + j, <<"x1", "x2", "r1">>), !.bin = bn,
                  !.body = BodyFor([g EXCEPT !.b = g.b * 1000 + j], 80 + 3 * j, bn), !.via = "conn", !.ctx = 4000]]
       [] kind = "rawdup" -> IF rk = 0 THEN <<>> ELSE \* a foreign client that repeats itself
            LET m == [B EXCEPT !.op = "rawsend", !.k = rk, !.via = "msg", !.ns = ns]
                rm == Pick(g, 21, RoomPool)
                q == Pick(g, 20, <<<<"connect", "join", "connect">>, <<"connect", "join", "join", "connect">>, <<"connect", "connect">>, <<"connect", "join", "leave", "leave">>,
                                   <<"connect", "join", "disconnect", "disconnect", "connect">>, <<"connect", "join", "disconnect", "connect", "leave">>, <<"join", "connect", "join", "evt", "connect", "evt">>>>)
            IN (IF Pct(g, 29, 35) THEN <<[m EXCEPT !.via = "raw", !.ns = "", !.body = "M"]>> ELSE <<>>)
               \o [j \in 1 .. Len(q) |-> IF q[j] = "evt" THEN [m EXCEPT !.evt = "x1", !.room = IF Pct(g, 22 + j, 50) THEN rm ELSE "", !.body = "b" \o ToString(g.b) \o "j" \o ToString(j)]
                  ELSE [m EXCEPT !.evt = q[j], !.room = IF q[j] \in {"join", "leave"} THEN rm ELSE "", !.id = Tok(g, TRUE) \o "j" \o ToString(j)]]
       [] kind = "nbcast" ->
            <<[B EXCEPT !.op = "bcast", !.srv = srv, !.fk = "none",
                 !.msgs = <<[ns |-> "", room |-> "", evt |-> "", body |-> Pick(g, 20, <<"b", "S", "W", "N">>) \o ToString(g.b), bin |-> bin, to |-> IF Pct(g, 21, 30) THEN "a" ELSE "", nat |-> TRUE]>>]>>
       [] kind = "sask" ->
            <<[B EXCEPT !.op = "sask", !.srv = srv, !.ns = ns, !.room = MaybeRoom(g, k, ns, 20, 20), !.evt = Pick(g, 22, <<"r1", "r2", "r1", "e1", "k1", "R1", "x1", "H1", "u1">>),
                 !.body = "b" \o ToString(g.b), !.to = IF Pct(g, 23, 50) THEN (IF k \in AllK(g) THEN g.conn[k].id ELSE "nobody") ELSE "", !.ctx = Pick(g, 24, <<200, 1000, 4000, -2>>)]>>

\* what the application expects of its own calls
Effect(g, o) ==
  LET ok == o.k \in AllK(g) IN
  CASE o.op \in {"dial", "rawdial"} -> [g EXCEPT !.conn = Append(@, [id |-> o.id, srv |-> o.srv, raw |-> o.op = "rawdial", dead |-> o.res # "", ns |-> {}, rooms |-> {}])]
    [] ~ok -> g
    [] o.op = "connect" -> [g EXCEPT !.conn[o.k].ns = @ \cup {o.ns}]
    [] o.op = "disconnect" -> [g EXCEPT !.conn[o.k].ns = @ \ {o.ns}, !.conn[o.k].rooms = {x \in @ : x[1] # o.ns}]
    [] o.op = "discall" -> [g EXCEPT !.conn[o.k].ns = {}, !.conn[o.k].rooms = {}]
    [] o.op = "join" -> [g EXCEPT !.conn[o.k].rooms = @ \cup {<<o.ns, o.room>>}]
    [] o.op = "leave" -> [g EXCEPT !.conn[o.k].rooms = @ \ {<<o.ns, o.room>>}]
    [] o.op \in {"close", "drop"} -> [g EXCEPT !.conn[o.k].dead = TRUE]
    [] o.op = "script" /\ o.do # <<>> -> [g EXCEPT !.nest = @ + 1]
    [] OTHER -> g

RECURSIVE MakeN(_, _, _)
MakeN(g, n, acc) ==
  IF n = 0 THEN [g EXCEPT !.steps = IF acc = <<>> THEN @ ELSE Append(@, acc)]
  ELSE LET g1 == [Tick(g) EXCEPT !.b = @ + 1]
           ops == Make(g1, Pick(g1, 0, FamOf(g.f).ops))
       IN MakeN(FoldLeft(LAMBDA x, o : Effect(x, o), g1, ops), n - 1, acc \o ops)

\* a behaviour starts with some connections and namespaces
Prologue(g0) ==
  LET d(g) == Make([Tick(g) EXCEPT !.b = @ + 1], "dial")
      g1 == LET o == d(g0) g == [Tick(g0) EXCEPT !.b = @ + 1] IN [FoldLeft(LAMBDA x, y : Effect(x, y), g, o) EXCEPT !.steps = <<o>>]
      g2 == IF Pct(g1, 400, 50) \/ FamOf(g1.f).conns < 3 THEN g1
            ELSE LET o == d(g1) g == [Tick(g1) EXCEPT !.b = @ + 1] IN [FoldLeft(LAMBDA x, y : Effect(x, y), g, o) EXCEPT !.steps = Append(@, o)]
      con == [j \in 1 .. Len(g2.conn) |-> [B EXCEPT !.op = "connect", !.k = j, !.sd = "c", !.ns = "n1"]]
      g3 == IF g2.cfg.only # "" \/ Pct(g2, 401, 25) THEN g2 ELSE [FoldLeft(LAMBDA x, y : Effect(x, y), g2, con) EXCEPT !.steps = Append(@, con)]
      jn == [j \in 1 .. Len(g3.conn) |-> [B EXCEPT !.op = "join", !.k = j, !.sd = "c", !.ns = "n1", !.room = "r1"]]
      g4 == IF g3.cfg.only # "" \/ g3 = g2 \/ Pct(g3, 402, 50) THEN g3 ELSE [FoldLeft(LAMBDA x, y : Effect(x, y), g3, jn) EXCEPT !.steps = Append(@, jn)]
  IN IF g0.f \in {"H", "R"} /\ Pct(g0, 403, 70) THEN g0 ELSE IF g0.cfg.only = "s" THEN g0 ELSE g4

-----------------------------------------------------------------------------
VARIABLE g
Init == g \in {Prologue(G0(i)) : i \in From .. From + Count - 1}
Step == /\ g.left > 0
        /\ g' = [MakeN(g, 1 + R(g, 500, g.par), <<>>) EXCEPT !.left = @ - 1]
Scenario(x) == [id |-> x.id, fam |-> FamOf(x.f).name, cfg |-> x.cfg, steps |-> x.steps, seed |-> x.seed, pre |-> x.preempt, pct |-> x.pct]
Done == /\ g.left = 0
        /\ PrintT("SCN " \o ToJson(Scenario(g)))
        /\ g' = [g EXCEPT !.left = -1]
Next == Step \/ Done
Spec == Init /\ [][Next]_g
=============================================================================
