-------------------------------- MODULE Obs --------------------------------
(***************************************************************************)
(* What an application that uses neffos can observe, and what it may rely  *)
(* on.  The state `st` is the abstract state of a whole deployment: the    *)
(* servers' registries, the connections (both ends), the memberships of    *)
(* each end, the frames in flight, the requests that are open, the         *)
(* callbacks that run and the calls that are pending.  Apply(st, e) is the *)
(* transition for one observable event e; where the event is not allowed   *)
(* in st, a label is added to st.viol.  The specification never looks at   *)
(* the schedule: whatever interleaving the implementation chose, the       *)
(* obligations below must hold.                                            *)
(*                                                                         *)
(* Events (one per line of a trace):                                       *)
(*   call/ret   an application call starts/returns                         *)
(*   cb/cbx     an application callback starts/returns                     *)
(*   wr         a side put a frame on the wire                             *)
(*   oc/ocx, od/odx  the server's OnConnect/OnDisconnect                   *)
(*   up         Server.Upgrade returned                                    *)
(*   nc, drop, rto, stall, unstall   the network                           *)
(*   exc        an exchange was told something                             *)
(*   quiet      nothing can move anymore; what the queries say             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
LOCAL INSTANCE Store

Get(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Put(f, x, v) == (x :> v) @@ f
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Other(sd) == IF sd = "c" THEN "s" ELSE "c"
Ran(s) == {s[j] : j \in 1 .. Len(s)}
Bad(st, l) == [st EXCEPT !.viol = @ \cup {l}]
Check(st, ok, l) == IF ok THEN st ELSE Bad(st, l)
\* every label whose condition fails, as a set of pairs <<ok, label>>
Checks(st, ps) == LET b == {p[2] : p \in {x \in ps : ~x[1]}}
                  IN IF b = {} THEN st ELSE [st EXCEPT !.viol = @ \cup b]

LifeReqs == {"connect", "disconnect", "join", "leave"}
LifeEvts == LifeReqs \cup {"connected", "joined", "left"}
LifeOps == {"connect", "disconnect", "discall", "join", "leave", "leaveall"}

InitSt(cfg) ==
  [cfg |-> cfg, n |-> 0,
   conn |-> <<>>,     \* k -> connection
   op |-> <<>>,       \* i -> pending call
   run |-> <<>>,      \* q -> running callback
   held |-> {},       \* running callbacks that the application holds back
   life |-> <<>>,     \* <<k,sd,ns>> -> phase of a namespace membership
   room |-> <<>>,     \* <<k,sd,ns,room>> -> phase of a room membership
   q |-> <<>>,        \* <<k,sd>> -> frames on their way to sd
   req |-> <<>>,      \* <<k,token>> -> request
   owed |-> {},       \* replies to messages that are not requests
   bc |-> <<>>,       \* i -> broadcast (or server-wide request)
   subs |-> <<>>,     \* subscriptions a broker has, by what is connected
   bcl |-> <<>>,      \* k -> what was delivered to k
   dv |-> <<>>, cv |-> <<>>, lv |-> <<>>, jv |-> <<>>,
   sin |-> <<>>, sout |-> <<>>, rin |-> <<>>, rout |-> <<>>,
   store |-> <<>>,    \* <<k,sd,key>> -> possible states of what is stored
   late |-> {},       \* <<k,ns,cv,room,jv>>: its end was agreed but had not come when a disconnect/leave returned ok
   taint |-> {},      \* <<k,ns>> where a call was abandoned half-way
   lastcb |-> <<>>,   \* <<k,sd,ns>> -> when a callback of it ended
   exc |-> <<>>,      \* <<srv,x,k>> -> what an exchange knows
   sclosed |-> {},    \* servers whose Close returned
   over |-> FALSE,
   viol |-> {}]

-----------------------------------------------------------------------------
\* Declarations

DeclNs(st, sd, ns) == \E j \in 1 .. Len(st.cfg.decl) : st.cfg.decl[j][1] = sd /\ st.cfg.decl[j][2] = ns
DeclEvt(st, sd, ns, evt) == \E j \in 1 .. Len(st.cfg.decl) :
    st.cfg.decl[j][1] = sd /\ st.cfg.decl[j][2] = ns /\ st.cfg.decl[j][3] = evt
AnyEvt(st, sd, ns) == \E j \in 1 .. Len(st.cfg.any) : st.cfg.any[j][1] = sd /\ st.cfg.any[j][2] = ns
Handles(st, sd, ns, evt) == DeclEvt(st, sd, ns, evt) \/ AnyEvt(st, sd, ns)
Only(st) == st.cfg.only # ""
OnlySide(st, sd) == st.cfg.only = sd \/ st.cfg.only = "cs"

-----------------------------------------------------------------------------
\* What is known for sure about memberships.  dv/cv/lv/jv count what could end/start
\* a membership; something known at a version stays known as long as the version stays.

Conn(st, k) == st.conn[k]
Known(st, k) == k \in DOMAIN st.conn
D(st, k, ns) == st.conn[k].dvall + Get(st.dv, <<k, ns>>, 0)
CV(st, k, ns) == Get(st.cv, <<k, ns>>, 0)
L(st, k, ns, r) == D(st, k, ns) + Get(st.lv, <<k, ns, r>>, 0) + Get(st.lv, <<k, ns>>, 0)
JV(st, k, ns, r) == CV(st, k, ns) + Get(st.jv, <<k, ns, r>>, 0)

BumpD(st, k, ns) == [st EXCEPT !.dv = Put(@, <<k, ns>>, Get(@, <<k, ns>>, 0) + 1)]
BumpC(st, k, ns) == [st EXCEPT !.cv = Put(@, <<k, ns>>, Get(@, <<k, ns>>, 0) + 1)]
BumpL(st, k, ns, r) == [st EXCEPT !.lv = Put(@, <<k, ns, r>>, Get(@, <<k, ns, r>>, 0) + 1)]
BumpLA(st, k, ns) == [st EXCEPT !.lv = Put(@, <<k, ns>>, Get(@, <<k, ns>>, 0) + 1)]
BumpJ(st, k, ns, r) == [st EXCEPT !.jv = Put(@, <<k, ns, r>>, Get(@, <<k, ns, r>>, 0) + 1)]
BumpAll(st, k) == [st EXCEPT !.conn[k].dvall = @ + 1]

\* something legitimate that ends connection k
Cause(st, k) == [st EXCEPT !.conn[k].cause = TRUE, !.conn[k].ext = TRUE, !.conn[k].dvall = @ + 1]

EndsNs(o, k, ns, srv) ==
  \/ o.k = k /\ ((o.op = "disconnect" /\ o.ns = ns) \/ o.op \in {"discall", "close"})
  \/ o.op = "srvclose" /\ o.srv = srv
PendEnd(st, k, ns) == \E i \in DOMAIN st.op : EndsNs(st.op[i], k, ns, st.conn[k].srv)
PendLeave(st, k, ns, r) == \E i \in DOMAIN st.op :
  LET o == st.op[i] IN o.k = k /\ o.ns = ns /\ ((o.op = "leave" /\ o.room = r) \/ o.op = "leaveall")

SureIn(st, k, sd, ns) == \/ OnlySide(st, sd) /\ ns = "" /\ ~st.conn[k].cause /\ (IF sd = "s" THEN st.conn[k].up = "ok" ELSE st.conn[k].dial = "ok")
                         \/ Get(st.sin, <<k, sd, ns>>, -1) = D(st, k, ns)
SureOut(st, k, sd, ns) == \/ ~DeclNs(st, sd, ns)
                          \/ ~OnlySide(st, sd) /\ Get(st.sout, <<k, sd, ns>>, -1) = CV(st, k, ns)
SureRoom(st, k, sd, ns, r) == Get(st.rin, <<k, sd, ns, r>>, -1) = L(st, k, ns, r)
SureNoRoom(st, k, sd, ns, r) == SureOut(st, k, sd, ns) \/ Get(st.rout, <<k, sd, ns, r>>, -1) = JV(st, k, ns, r)

\* an agreed end that the application was not told yet
Ending(st, k, sd, ns) == \E x \in DOMAIN st.req : LET r == st.req[x] IN
  x[1] = k /\ r.kind = "life" /\ r.evt = "disconnect" /\ r.ns = ns /\ r.by = sd /\ r.done /\ ~r.riserr /\ ~r.used
EndingRoom(st, k, sd, ns, room) == \E x \in DOMAIN st.req : LET r == st.req[x] IN
  x[1] = k /\ r.kind = "life" /\ r.evt = "leave" /\ r.ns = ns /\ r.room = room /\ r.by = sd /\ r.done /\ ~r.riserr /\ ~r.used
LearnIn(st, k, sd, ns) ==
  IF PendEnd(st, k, ns) \/ Ending(st, k, sd, ns) \/ <<k, ns>> \in st.taint \/ st.conn[k].cause THEN st
  ELSE [st EXCEPT !.sin = Put(@, <<k, sd, ns>>, D(st, k, ns))]
LearnRoom(st, k, sd, ns, r) ==
  IF PendEnd(st, k, ns) \/ PendLeave(st, k, ns, r) \/ Ending(st, k, sd, ns) \/ EndingRoom(st, k, sd, ns, r) \/ <<k, ns>> \in st.taint \/ st.conn[k].cause THEN st
  ELSE [st EXCEPT !.rin = Put(@, <<k, sd, ns, r>>, L(st, k, ns, r))]

\* may / must a message for ns, room be written by side sd of k
CanSurely(st, k, sd, ns, r) ==
  /\ SureIn(st, k, sd, ns)
  /\ r = "" \/ SureRoom(st, k, sd, ns, r)
  /\ ~st.conn[k].cause
CannotSurely(st, k, sd, ns, r) ==
  \/ SureOut(st, k, sd, ns)
  \/ r # "" /\ SureNoRoom(st, k, sd, ns, r)
  \/ st.conn[k].closed

-----------------------------------------------------------------------------
\* Calls

NewConn(e) ==
  [srv |-> e.srv, id |-> e.id, raw |-> e.op = "rawdial", oc |-> "none", ocerr |-> "", up |-> "none", acc |-> FALSE,
   early |-> FALSE, cause |-> FALSE, ext |-> FALSE, pre |-> FALSE, ack |-> FALSE, sent |-> "", dial |-> "pend", od |-> 0,
   stall |-> {}, dvall |-> 0, closed |-> FALSE, inj |-> FALSE, slow |-> FALSE, late |-> FALSE]

NewOp(st, e) ==
  LET kk == e.op \notin {"dial", "rawdial"} /\ Known(st, e.k)
  IN [i |-> e.i, op |-> e.op, k |-> e.k, sd |-> e.sd, ns |-> e.ns, room |-> e.room, evt |-> e.evt, body |-> e.body, bin |-> e.bin,
      ctx |-> e.ctx, t |-> e.t, par |-> e.par, srv |-> e.srv, to |-> e.to, wrote |-> 0, toks |-> {}, errs |-> {}, agreed |-> FALSE, multi |-> FALSE, n |-> st.n, cvs |-> st.cv, jvs |-> st.jv,
      d |-> IF kk THEN D(st, e.k, e.ns) ELSE 0, c |-> IF kk THEN CV(st, e.k, e.ns) ELSE 0,
      l |-> IF kk THEN L(st, e.k, e.ns, e.room) ELSE 0, j |-> IF kk THEN JV(st, e.k, e.ns, e.room) ELSE 0,
      sure |-> kk /\ SureIn(st, e.k, e.sd, e.ns), rsure |-> kk /\ SureRoom(st, e.k, e.sd, e.ns, e.room),
      can |-> kk /\ CanSurely(st, e.k, e.sd, e.ns, e.room), cannot |-> kk /\ CannotSurely(st, e.k, e.sd, e.ns, e.room),
      out |-> kk /\ SureOut(st, e.k, e.sd, e.ns), nors |-> e.op \in {"dial", "rawdial"} /\ e.srv \in st.sclosed]

Excluded(st, b, c) ==
  \/ b.fk \in {"conn", "ns"} /\ b.k = c
  \/ b.fk \in {"room", "id"} /\ b.id # "" /\ st.conn[c].id = b.id
Addressed(st, b, m, c) ==
  /\ st.conn[c].srv = b.srv \/ st.cfg.exc # ""
  /\ ~Excluded(st, b, c)
  /\ m.to = "" \/ m.to = st.conn[c].id

\* the connections that are surely in the audience of message m right now
Audience(st, b, m) ==
  {c \in DOMAIN st.conn : /\ Addressed(st, b, m, c)
                          /\ CanSurely(st, c, "s", m.ns, m.room)
                          /\ st.conn[c].stall = {} /\ ~st.conn[c].slow}
NewBcast(st, e, msgs) ==
  LET b == [i |-> e.i, op |-> e.op, srv |-> e.srv, fk |-> e.fk, k |-> e.k, id |-> e.id, msgs |-> msgs, toks |-> {},
            call |-> st.n, ret |-> 0, got |-> {}, must |-> {}]
  IN [b EXCEPT !.must = UNION {{<<c, j, L(st, c, msgs[j].ns, msgs[j].room)>> : c \in Audience(st, b, msgs[j])} : j \in 1 .. Len(msgs)}]

\* the server itself lets a connection in by using it
Early(st, k, sd) ==
  IF sd = "s" /\ Known(st, k) /\ st.conn[k].oc \in {"none", "in"} THEN [st EXCEPT !.conn[k].early = TRUE] ELSE st

ConnsOf(st, srv) == {k \in DOMAIN st.conn : st.conn[k].srv = srv}

ACall(st0, e) ==
  LET st == st0
      st1 == Early(st0, e.k, e.sd)
      st2 == CASE e.op \in {"dial", "rawdial"} -> [st1 EXCEPT !.conn = Put(@, e.k, LET over == e.srv \in st.sclosed
                                                                                       going == over \/ \E i \in DOMAIN st.op : st.op[i].op = "srvclose" /\ st.op[i].srv = e.srv
                                                                                   IN [NewConn(e) EXCEPT !.late = over, !.cause = going, !.ext = going])]
               [] e.op = "connect" -> BumpC(st1, e.k, e.ns)
               [] e.op = "disconnect" -> BumpD(st1, e.k, e.ns)
               [] e.op = "discall" -> BumpAll(st1, e.k)
               [] e.op = "join" -> BumpJ(st1, e.k, e.ns, e.room)
               [] e.op = "leave" -> BumpL(st1, e.k, e.ns, e.room)
               [] e.op = "leaveall" -> BumpLA(st1, e.k, e.ns)
               [] e.op = "close" -> Cause(st1, e.k)
               [] e.op = "srvclose" -> FoldSet(LAMBDA k, s : Cause(s, k), st1, ConnsOf(st1, e.srv))
               [] e.op = "bcast" -> [st1 EXCEPT !.bc = Put(@, e.i, NewBcast(st1, e, e.msgs))]
               [] e.op = "sask" -> [st1 EXCEPT !.bc = Put(@, e.i, NewBcast(st1, e,
                    <<[ns |-> e.ns, room |-> e.room, evt |-> e.evt, body |-> e.body, bin |-> e.bin, to |-> e.to, nat |-> FALSE]>>))]
               [] OTHER -> st1
      o == IF e.op \in LifeOps THEN [NewOp(st2, e) EXCEPT !.sure = SureIn(st1, e.k, e.sd, e.ns), !.rsure = SureRoom(st1, e.k, e.sd, e.ns, e.room),
                                                          !.out = SureOut(st1, e.k, e.sd, e.ns)]
           ELSE NewOp(st2, e)
  IN [st2 EXCEPT !.op = Put(@, e.i, o)]

-----------------------------------------------------------------------------
\* Returns

Elapsed(o, t) == \/ o.ctx > 0 /\ t - o.t >= o.ctx
                 \/ o.op = "connect" /\ o.sd = "s" /\ o.toks = {} /\ t - o.t >= 10000

\* it had more than enough time to notice that
Overdue(st, o, t) == \/ o.ctx > 0 /\ t - o.t >= o.ctx + (IF st.cfg.live THEN 5 ELSE 0)  \* a broker's client has timers
                          + (IF o.op = "waitconnect" \/ (o.op = "connect" /\ o.sd = "s") THEN 20 ELSE 0)  \* these poll
                     \/ o.op = "connect" /\ o.sd = "s" /\ ~st.conn[o.k].ack /\ t - o.t >= 20000

\* a request of call o that was answered with error v
Answered(st, o, iserr, v) == \E tk \in o.toks : LET r == st.req[<<o.k, tk>>] IN r.done /\ r.riserr = iserr /\ r.rbody = v

SameD(st, o) == D(st, o.k, o.ns) = o.d /\ ~PendEnd([st EXCEPT !.op = Del(@, o.i)], o.k, o.ns)
SameL(st, o) == SameD(st, o) /\ L(st, o.k, o.ns, o.room) = o.l
\* no other call or message could have moved this membership meanwhile
Alone(st, o) == \A i \in DOMAIN st.op \ {o.i} : ~(st.op[i].k = o.k /\ st.op[i].op \in LifeOps)

\* is error v of call o explained?
Justified(st, o, v, t) ==
  \/ v = "ctx" /\ Elapsed(o, t)
  \/ v \in {"write", "close"} /\ st.conn[o.k].cause
  \/ v = "write" /\ ((o.op \in {"join", "leave", "leaveall", "ask"} /\ ~(o.can /\ SameL(st, o))) \/ (o.op = "leaveall" /\ (~Alone(st, o) \/ o.multi)) \/ st.conn[o.k].slow)
  \/ v = "badns" /\ o.op = "connect" /\ ~DeclNs(st, o.sd, o.ns)
  \/ v = "badns" /\ o.op \in {"disconnect", "join", "leave", "leaveall"} /\ ~(o.sure /\ (o.op = "disconnect" \/ SameD(st, o)))
  \/ v = "badns" /\ o.op = "disconnect" /\ (~Alone(st, o) \/ o.multi \/ (o.toks = {} /\ D(st, o.k, o.ns) # o.d))
  \/ v = "badroom" /\ o.op = "leave" /\ (~(o.rsure /\ SameD(st, o) /\ Alone(st, o)) \/ o.multi \/ (o.toks = {} /\ L(st, o.k, o.ns, o.room) # o.l))
  \/ v \in o.errs
  \/ <<o.k, o.ns>> \in st.taint

Phase(st, k, sd, ns) == Get(st.life, <<k, sd, ns>>, [ph |-> "out", ok |-> 0, ep |-> 0, old |-> 0])
RPhase(st, k, sd, ns, r) == Get(st.room, <<k, sd, ns, r>>, [ph |-> "out", ok |-> 0, ep |-> 0, old |-> 0])
RunningNs(st, k, sd, ns) == \E q \in DOMAIN st.run : st.run[q].k = k /\ st.run[q].sd = sd /\ st.run[q].ns = ns
\* ... or did since call o was made: what o asked for may happen right after that callback
RanNs(st, o, ns) == RunningNs(st, o.k, o.sd, ns) \/ Get(st.lastcb, <<o.k, o.sd, ns>>, 0) > o.n
\* the end of a membership may come after the call that asked for it returned: the other side's end of it, or
\* one delayed by another call or callback
InNsAny(st, k, ns) == \E sd \in {"c", "s"} : Phase(st, k, sd, ns).ph \notin {"out", "end"}
InRoomAny(st, k, ns, r) == \E sd \in {"c", "s"} : RPhase(st, k, sd, ns, r).ph \notin {"out", "leaving"}
LateNs(st, k, ns) == \E x \in st.late : x[1] = k /\ x[2] = ns /\ x[3] = CV(st, k, ns)
LateRoom(st, k, ns, r) == LateNs(st, k, ns) \/ \E x \in st.late : x[1] = k /\ x[2] = ns /\ x[4] = r /\ x[5] = JV(st, k, ns, r)
Slack(st, o, ns) == ~Alone(st, o) \/ RanNs(st, o, ns) \/ LateNs(st, o.k, ns) \/ st.conn[o.k].cause \/ <<o.k, ns>> \in st.taint

RunningRoom(st, k, sd, ns, r) == \E q \in DOMAIN st.run :
  st.run[q].k = k /\ st.run[q].sd = sd /\ st.run[q].ns = ns /\ st.run[q].room = r

IsInNs(st, k, sd, ns) == LET p == Phase(st, k, sd, ns) IN p.ph \in {"in", "asked"} \/ p.ok > 0 \/ OnlySide(st, sd)
IsInRoom(st, k, sd, ns, r) == LET p == RPhase(st, k, sd, ns, r) IN p.ph \in {"in", "asked", "inamb"} \/ p.ok > 0

ARetLife(st, o, e) ==
  LET k == o.k
      st1 == IF e.ok THEN st
             ELSE Check(st, Justified(st, o, e.err, e.t), "op:" \o o.op \o "-unjustified-error")
      st2 == CASE ~e.ok -> st1
               [] o.op = "connect" -> Checks(st1, {
                    <<IsInNs(st1, k, o.sd, o.ns) \/ Phase(st1, k, o.sd, o.ns).ph = "end" \/ ~SameD(st1, o) \/ RunningNs(st1, k, o.sd, o.ns), "op:connect-ok-but-not-in">>,
                    <<e.x = "same" \/ ~SameD(st1, o) \/ st1.conn[k].cause, "op:connect-not-same">>,
                    <<(DeclNs(st1, "s", o.ns) /\ DeclNs(st1, "c", o.ns)) \/ st1.conn[k].raw, "op:connect-undeclared">>})
               [] o.op = "join" -> Checks(st1, {
                    <<IsInRoom(st1, k, o.sd, o.ns, o.room) \/ RPhase(st1, k, o.sd, o.ns, o.room).ph = "leaving" \/ ~SameL(st1, o) \/ RunningRoom(st1, k, o.sd, o.ns, o.room), "op:join-ok-but-not-in">>,
                    <<e.x = "same" \/ (e.x # "wrong" /\ (~SameL(st1, o) \/ st1.conn[k].cause)), "op:join-wrong-room">>})
               [] o.op = "disconnect" -> Checks(st1, {
                    <<Phase(st1, k, o.sd, o.ns).ph \in {"out", "end"} \/ CV(st1, k, o.ns) # o.c \/ Slack(st1, o, o.ns), "op:disconnect-ok-but-in">>,
                    <<~o.out \/ CV(st1, k, o.ns) # o.c, "op:disconnect-ok-of-unconnected">>})
               [] o.op = "leave" -> Checks(st1, {
                    <<RPhase(st1, k, o.sd, o.ns, o.room).ph \in {"out", "leaving"} \/ JV(st1, k, o.ns, o.room) # o.j
                        \/ LateRoom(st1, k, o.ns, o.room) \/ Slack(st1, o, o.ns), "op:leave-ok-but-in">>,
                    <<~SureNoRoom(st1, k, o.sd, o.ns, o.room) \/ JV(st1, k, o.ns, o.room) # o.j \/ L(st1, k, o.ns, o.room) # o.l,
                      "op:leave-ok-of-unjoined">>})
               [] o.op = "leaveall" -> Check(st1,
                    (\A x \in DOMAIN st1.room : x[1] = k /\ x[2] = o.sd /\ x[3] = o.ns =>
                        st1.room[x].ph \in {"out", "leaving"} \/ LateRoom(st1, k, x[3], x[4])
                          \/ Get(st1.jv, <<k, x[3], x[4]>>, 0) # Get(o.jvs, <<k, x[3], x[4]>>, 0))
                    \/ Slack(st1, o, o.ns), "op:leaveall-ok-but-in")
               [] o.op = "discall" -> Check(st1,
                    \A x \in DOMAIN st1.life : x[1] = k /\ x[2] = o.sd => st1.life[x].ph \in {"out", "end"} \/ Slack(st1, o, x[3])
                        \/ CV(st1, k, x[3]) # Get(o.cvs, <<k, x[3]>>, 0) \/ "badns" \in o.errs
                        \/ PendEnd([st1 EXCEPT !.op = Del(@, o.i)], k, x[3]), "op:discall-ok-but-in")
               [] OTHER -> st1
      \* given up half-way: the other side may still act on the request
      st3 == IF ~e.ok /\ e.err = "ctx" /\ o.op # "discall" THEN [st2 EXCEPT !.taint = @ \cup {<<k, o.ns>>}]
             ELSE IF (~e.ok /\ e.err = "ctx") \/ (o.op = "discall" /\ o.toks # {} /\ \E x \in DOMAIN st2.cv : x[1] = k /\ st2.cv[x] # Get(o.cvs, x, 0)) THEN [st2 EXCEPT !.taint = @ \cup {<<k, st2.cfg.decl[j][2]>> : j \in 1 .. Len(st2.cfg.decl)}]
             \* a request of a membership that is over, handled in the next one
             ELSE IF ((~e.ok /\ o.op \in {"join", "leave"} /\ ~SameD(st2, o)) \/ o.op = "disconnect") /\ o.toks # {} /\ CV(st2, k, o.ns) # o.c THEN [st2 EXCEPT !.taint = @ \cup {<<k, o.ns>>}]
             ELSE st2
      st4 == IF e.ok /\ o.op = "connect" /\ SameD(st3, o) /\ IsInNs(st3, k, o.sd, o.ns) THEN LearnIn([st3 EXCEPT !.op = Del(@, o.i)], k, o.sd, o.ns)
             ELSE IF e.ok /\ o.op = "join" /\ SameL(st3, o) /\ IsInRoom(st3, k, o.sd, o.ns, o.room) THEN LearnRoom([st3 EXCEPT !.op = Del(@, o.i)], k, o.sd, o.ns, o.room)
             ELSE st3
      st5 == IF ~e.ok THEN st4
             ELSE LET addNs(t, n) == IF InNsAny(t, k, n) THEN [t EXCEPT !.late = @ \cup {<<k, n, CV(t, k, n), "", 0>>}] ELSE t
                      addRoom(t, n, r) == IF InRoomAny(t, k, n, r) THEN [t EXCEPT !.late = @ \cup {<<k, n, -1, r, JV(t, k, n, r)>>}] ELSE t
                  IN CASE o.op = "disconnect" -> addNs(st4, o.ns)
                    [] o.op = "leave" -> addRoom(st4, o.ns, o.room)
                    [] o.op = "discall" -> FoldSet(LAMBDA x, t : addNs(t, x[2]), st4, {y \in DOMAIN o.cvs : y[1] = k})
                    [] o.op = "leaveall" -> FoldSet(LAMBDA x, t : addRoom(t, o.ns, x[3]), st4, {y \in DOMAIN o.jvs : y[1] = k /\ y[2] = o.ns})
                    [] OTHER -> st4
  IN st5

ARetSend(st, o, e) ==
  LET same == L(st, o.k, o.ns, o.room) = o.l
      c == st.conn[o.k]
  IN Checks(st, {
      <<e.ok => o.wrote = 1, "send:ok-not-written">>,
      <<~e.ok => o.wrote = 0 \/ (st.cfg.tr # "mem" /\ c.cause), "send:failed-but-written">>,
      <<o.can /\ same /\ ~c.cause /\ c.stall = {} /\ ~c.slow => e.ok, "send:failed-though-in">>,
      <<o.cannot /\ CV(st, o.k, o.ns) = o.c /\ JV(st, o.k, o.ns, o.room) = o.j => ~e.ok /\ o.wrote = 0, "send:ok-though-out">>})

ARetAsk(st, o, e) ==
  LET c == st.conn[o.k]
      same == L(st, o.k, o.ns, o.room) = o.l
      kind == IF e.ok THEN Answered(st, o, FALSE, e.body)
              ELSE \/ Answered(st, o, TRUE, e.err)
                   \/ e.err = "ctx" /\ Elapsed(o, e.t)
                   \/ e.err \in {"write", "close"} /\ (c.cause \/ c.slow)
                   \/ e.err = "write" /\ o.toks = {} /\ ~(o.can /\ same)
                   \/ e.err = "write" /\ o.toks = {} /\ c.stall # {}
  IN Checks(st, {
      <<kind, IF e.ok THEN "ask:wrong-reply" ELSE "ask:unjustified-error">>,
      <<OnlySide(st, o.sd) \/ ~e.ok \/ o.toks # {}, "ask:no-request">>,
      <<o.cannot /\ CV(st, o.k, o.ns) = o.c /\ JV(st, o.k, o.ns, o.room) = o.j => ~e.ok /\ o.toks = {}, "send:ask-though-out">>})

\* the reply of a server-wide request may come from any connection it went to
ARetServerAsk(st, o, e) ==
  LET b == st.bc[o.i]
      hit(iserr, v) == \E x \in DOMAIN st.req : st.req[x].i = o.i /\ st.req[x].done /\ st.req[x].riserr = iserr /\ st.req[x].rbody = v
  IN [Checks(st, {
        <<e.ok => hit(FALSE, e.body), "sask:wrong-reply">>,
        <<~e.ok => hit(TRUE, e.err) \/ (e.err = "ctx" /\ Elapsed(o, e.t)), "sask:unjustified-error">>})
      EXCEPT !.bc[o.i].ret = st.n]

ARetDial(st, o, e) ==
  LET c == st.conn[o.k]
  IN [IF o.op = "rawdial" THEN st
      ELSE IF e.ok THEN Checks(st, {
          <<Only(st) \/ c.sent = "id", "hs:dial-ok-without-id">>,
          <<Only(st) \/ e.body = c.id, "hs:dial-wrong-id">>,
          <<~st.cfg.oc \/ c.oc = "ok" \/ c.early \/ Only(st), "hs:dial-ok-not-accepted">>,
          <<~o.nors, "hs:dial-ok-on-closed-server">>})
      ELSE Checks(st, {
          <<c.cause, "hs:dial-failed-without-cause">>,
          <<c.ext \/ c.oc # "err" \/ c.early \/ e.err = c.ocerr, "hs:dial-wrong-error">>})
      EXCEPT !.conn[o.k].dial = IF e.ok THEN "ok" ELSE "err"]

ARet(st, e) ==
  LET o == st.op[e.i]
      s == CASE o.op \in LifeOps -> ARetLife(st, o, e)
             [] o.op \in {"emit", "native"} -> ARetSend(st, o, e)
             [] o.op = "ask" -> ARetAsk(st, o, e)
             [] o.op = "sask" -> ARetServerAsk(st, o, e)
             [] o.op = "bcast" -> [st EXCEPT !.bc[o.i].ret = st.n]
             [] o.op \in {"dial", "rawdial"} -> ARetDial(st, o, e)
             [] o.op = "srvclose" -> [st EXCEPT !.sclosed = @ \cup {o.srv}]
             [] o.op = "waitconnect" ->
                  IF e.ok THEN Check(st, IsInNs(st, o.k, o.sd, o.ns) \/ D(st, o.k, o.ns) # o.d, "op:waitconnect-ok-but-not-in")
                  ELSE Check(st, (e.err = "ctx" /\ Elapsed(o, e.t)) \/ (e.err \in {"write", "close"} /\ st.conn[o.k].cause), "op:waitconnect-unjustified-error")
             [] OTHER -> st
  IN [s EXCEPT !.op = Del(@, e.i)]

-----------------------------------------------------------------------------
\* Frames

Enqueue(st, k, to, f) ==
  IF to = "c" /\ st.conn[k].raw THEN st
  ELSE [st EXCEPT !.q = Put(@, <<k, to>>, Append(Get(@, <<k, to>>, <<>>), f))]

\* f has to be handled by its receiver unless the membership is touched
Firm(st, k, sd, ns) == \/ Only(st) /\ ~st.conn[k].cause
                       \/ SureIn(st, k, sd, ns) /\ <<k, ns>> \notin st.taint /\ ~st.conn[k].cause
FrameOf(st, e, firm) ==
  [wait |-> e.wait, ns |-> e.ns, room |-> e.room, evt |-> IF e.kind = "raw" THEN "native" ELSE e.evt, iserr |-> e.iserr, body |-> e.body,
   bin |-> e.bin, firm |-> firm, d |-> D(st, e.k, e.ns), raw |-> e.inj]

NewReq(st, e, kind, i) == [by |-> e.sd, kind |-> kind, evt |-> e.evt, ns |-> e.ns, room |-> e.room, body |-> e.body, i |-> i,
  cbq |-> 0, cres |-> "", cv |-> "", done |-> FALSE, riserr |-> FALSE, rbody |-> "", used |-> FALSE, inj |-> e.inj, sure |-> FALSE, d |-> D(st, e.k, e.ns), n |-> Cardinality(DOMAIN st.req)]

\* a request frame of connect/disconnect/join/leave also moves the versions
Moves(st, e) ==
  CASE e.evt = "connect" -> BumpC(st, e.k, e.ns)
    [] e.evt = "disconnect" -> BumpD(st, e.k, e.ns)
    [] e.evt = "join" -> BumpJ(st, e.k, e.ns, e.room)
    [] e.evt = "leave" -> BumpL(st, e.k, e.ns, e.room)

LifeOpFor(o, e) ==
  /\ o.k = e.k /\ o.sd = e.sd
  /\ \/ o.op = e.evt /\ o.ns = e.ns /\ (e.evt \in {"connect", "disconnect"} \/ o.room = e.room)
     \/ o.op = "discall" /\ e.evt = "disconnect"
     \/ o.op = "leaveall" /\ e.evt = "leave" /\ o.ns = e.ns

WrLifeReq(st, e) ==
  LET ops == {i \in DOMAIN st.op : LifeOpFor(st.op[i], e)}
      st1 == Check(Moves(st, e), ops # {}, "wire:unexplained-request")
  IN [st1 EXCEPT !.op = [i \in DOMAIN @ |-> IF i \in ops THEN [@[i] EXCEPT !.toks = @ \cup {e.wait}, !.multi = @ \/ Cardinality(ops) > 1] ELSE @[i]],
                 !.req = Put(@, <<e.k, e.wait>>, [NewReq(st, e, "life", 0) EXCEPT !.sure =
                    IF e.evt = "connect" THEN SureIn(st, e.k, Other(e.sd), e.ns) ELSE SureRoom(st, e.k, Other(e.sd), e.ns, e.room)])]

SameContent(x, e) == x.ns = e.ns /\ x.room = e.room /\ x.evt = e.evt /\ x.body = e.body
MsgIs(st, m, e) ==
  IF m.nat THEN e.kind = "raw" /\ m.body = e.body /\ (m.bin = e.bin \/ st.cfg.exc # "")
  ELSE e.kind = "msg" /\ ~e.iserr /\ ~e.noop /\ SameContent(m, e) /\ (m.bin = e.bin \/ st.cfg.exc # "")

\* broadcast deliveries that frame e (of a server) could be
Deliveries(st, e, op) ==
  {<<i, j>> \in UNION {{<<i, j>> : j \in 1 .. Len(st.bc[i].msgs)} : i \in {x \in DOMAIN st.bc : st.bc[x].op = op}} :
      MsgIs(st, st.bc[i].msgs[j], e)}

\* nats keeps the order of a subject only
SameSubject(st, m, n) == st.cfg.exc # "nats" \/ (m.to = n.to /\ (m.to # "" \/ m.ns = n.ns))
Deliver(st, e, i, j) ==
  LET b == st.bc[i]
      m == b.msgs[j]
      k == e.k
      prev == Get(st.bcl, k, <<>>)
      st1 == Checks(st, {
        <<Addressed(st, b, m, k), "bcast:wrong-audience">>,
        <<~CannotSurely(st, k, "s", m.ns, m.room), "bcast:not-a-member">>,
        <<<<k, j>> \notin b.got, "bcast:duplicate">>,
        <<\A x \in Ran(prev) : SameSubject(st, m, st.bc[x[1]].msgs[x[2]]) => ~(x[1] = i /\ x[2] > j) /\ ~(x[1] # i /\ b.ret > 0 /\ b.ret < st.bc[x[1]].call
             /\ (st.cfg.exc = "" \/ (b.op = "bcast" /\ st.bc[x[1]].op = "bcast" /\ b.srv = st.bc[x[1]].srv))), "bcast:reordered">>})
  IN [st1 EXCEPT !.bc[i].got = @ \cup {<<k, j>>}, !.bcl = Put(@, k, Append(prev, <<i, j>>))]

\* a user request: Ask of a connection or of the server
WrUserReq(st, e) ==
  LET ops == {i \in DOMAIN st.op : LET o == st.op[i] IN o.op = "ask" /\ o.k = e.k /\ o.sd = e.sd /\ SameContent(o, e) /\ o.bin = e.bin /\ o.toks = {}}
      ds == IF e.sd = "s" THEN Deliveries(st, e, "sask") ELSE {}
      fr(s) == Enqueue(s, e.k, Other(e.sd), FrameOf(st, e, Firm(st, e.k, e.sd, e.ns)))
  IN IF e.iserr \/ e.noop THEN Bad(st, "wire:unexplained")
     ELSE IF ops # {} THEN
       LET i == CHOOSE x \in ops : \A y \in ops : x <= y
       IN fr([st EXCEPT !.op[i].toks = {e.wait}, !.req = Put(@, <<e.k, e.wait>>, NewReq(st, e, "user", i))])
     ELSE IF ds # {} THEN
       LET d == CHOOSE x \in ds : TRUE
       IN fr(Deliver([st EXCEPT !.req = Put(@, <<e.k, e.wait>>, NewReq(st, e, "user", d[1]))], e, d[1], d[2]))
     ELSE IF e.sd = "s" /\ Deliveries(st, e, "bcast") # {} THEN Bad(st, "wire:disclosed")
     ELSE Bad(st, "wire:unexplained")

\* the answer to a request
WrReply(st, e) ==
  LET x == <<e.k, e.wait>>
      r == st.req[x]
      c == st.conn[e.k]
      notIn == ~SureIn(st, e.k, e.sd, r.ns) \/ D(st, e.k, r.ns) # r.d
      exact == e.ns = r.ns /\ e.room = r.room /\ e.evt = r.evt
      userOk == /\ exact
                /\ \/ r.cres = "rep" /\ ~e.iserr /\ e.body = r.cv
                   \/ r.cres = "err" /\ e.iserr /\ e.body = r.cv
                   \/ r.cbq = 0 /\ e.iserr /\ e.body = "badns" /\ notIn
      ignored == e.sd = "c" /\ r.evt \in {"disconnect", "leave"}
      lifeOk == IF e.iserr
                THEN /\ exact
                     /\ \/ r.cres = "err" /\ e.body = r.cv /\ ~ignored
                        \/ e.body = "badns" /\ (r.evt = "connect" => ~DeclNs(st, e.sd, r.ns)) /\ (r.evt \in {"join", "leave"} => notIn)
                           /\ r.evt # "disconnect"
                ELSE /\ r.cres # "err" \/ ignored
                     \* without asking: only if there is nothing to change
                     /\ r.cbq # 0 \/ CASE r.evt = "connect" -> ~SureOut(st, e.k, e.sd, r.ns)
                                       [] r.evt = "join" -> ~SureNoRoom(st, e.k, e.sd, r.ns, r.room)
                                       [] OTHER -> TRUE
                     /\ r.cbq = 0 \/ r.cres # "" \/ ignored
      ops == {i \in DOMAIN st.op : st.op[i].k = e.k /\ e.wait \in st.op[i].toks}
      st1 == Checks(st, {
        <<~r.done, "reply:twice">>,
        <<r.kind = "user" => userOk, "reply:wrong">>,
        <<r.kind = "life" => lifeOk, "reply:lifecycle-wrong">>,
        <<~e.noop, "reply:noop">>})
  IN [st1 EXCEPT !.req[x] = [@ EXCEPT !.done = TRUE, !.riserr = e.iserr, !.rbody = e.body],
                 !.op = [i \in DOMAIN @ |-> IF i \in ops /\ e.iserr THEN [@[i] EXCEPT !.errs = @ \cup {e.body}] ELSE @[i]]]

\* a plain message: a send, the result of a callback, or a delivery of a broadcast
WrPlain(st, e) ==
  LET evt == IF e.kind = "raw" THEN "native" ELSE e.evt
      ops == {i \in DOMAIN st.op : LET o == st.op[i] IN
                /\ o.k = e.k /\ o.sd = e.sd /\ o.wrote = 0 /\ o.body = e.body /\ o.bin = e.bin
                /\ IF e.kind = "raw" THEN o.op = "native" ELSE o.op = "emit" /\ SameContent(o, e) /\ ~e.iserr /\ ~e.noop}
      ow == {x \in st.owed : x.k = e.k /\ x.sd = e.sd /\ e.kind = "msg" /\ SameContent(x, e) /\ x.iserr = e.iserr /\ x.bin = e.bin /\ ~e.noop}
      ds == IF e.sd = "s" THEN Deliveries(st, e, "bcast") ELSE {}
      fresh == {d \in ds : <<e.k, d[2]>> \notin st.bc[d[1]].got}
      fr(s) == Enqueue(s, e.k, Other(e.sd), FrameOf(st, e, Firm(st, e.k, e.sd, e.ns)))
      out == CannotSurely(st, e.k, e.sd, e.ns, e.room) /\ ~Only(st)
  IN IF ops # {} THEN
       LET i == CHOOSE x \in ops : \A y \in ops : x <= y
       IN fr([st EXCEPT !.op[i].wrote = 1])
     ELSE IF ow # {} THEN
       LET x == CHOOSE y \in ow : \A z \in ow : y.q <= z.q
       IN fr(Check([st EXCEPT !.owed = @ \ {x}], ~out, "send:reply-though-out"))
     ELSE IF fresh # {} THEN LET d == CHOOSE x \in fresh : \A y \in fresh : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2]) IN fr(Deliver(st, e, d[1], d[2]))
     ELSE IF ds # {} THEN LET d == CHOOSE x \in ds : TRUE IN fr(Deliver(st, e, d[1], d[2]))
     ELSE Bad(st, "wire:unexplained")

\* a frame made by the environment (a foreign or hostile peer)
WrInjected(st0, e) ==
  LET st == [st0 EXCEPT !.conn[e.k].inj = TRUE]
      prior == \E x \in DOMAIN st.req : x[1] = e.k /\ st.req[x].inj /\ st.req[x].evt = "connect" /\ st.req[x].ns = e.ns /\ st.req[x].d = D(st, e.k, e.ns)
      f == FrameOf(st, e, st.conn[e.k].raw /\ (prior \/ OnlySide(st, "s")))
  IN CASE e.kind \in {"ack"} -> [st EXCEPT !.conn[e.k].ack = TRUE]
       [] e.kind = "raw" -> Enqueue(st, e.k, Other(e.sd), [f EXCEPT !.firm = @ /\ OnlySide(st, "s")])
       [] e.kind = "msg" /\ OnlySide(st, Other(e.sd)) -> Enqueue(st, e.k, Other(e.sd), [f EXCEPT !.evt = "native"])
       [] e.kind = "msg" /\ e.evt \in LifeReqs /\ e.rq = "req" -> Moves([st EXCEPT !.req = Put(@, <<e.k, e.wait>>, NewReq(st, e, "life", 0))], e)
       [] e.kind = "msg" /\ e.evt \notin LifeEvts /\ e.rq = "req" ->
            Enqueue([st EXCEPT !.req = Put(@, <<e.k, e.wait>>, NewReq(st, e, "user", 0))], e.k, Other(e.sd), f)
       [] e.kind = "msg" /\ e.evt \notin LifeEvts /\ e.rq \in {"", "stray"} -> Enqueue(st, e.k, Other(e.sd), [f EXCEPT !.firm = @ /\ e.rq = ""])
       [] e.kind = "msg" /\ e.rq = "rep" /\ <<e.k, e.wait>> \in DOMAIN st.req ->
            [st EXCEPT !.req[<<e.k, e.wait>>] = [@ EXCEPT !.done = TRUE, !.riserr = e.iserr, !.rbody = e.body]]
       [] OTHER -> st

AWr(st, e) ==
  LET c == st.conn[e.k]
      st0 == Check(st, e.sd = "c" \/ c.sent # "" \/ Only(st) \/ e.kind \in {"id", "no"} \/ e.inj, "hs:frame-before-id")
  IN CASE e.inj -> WrInjected(st, e)
       [] e.kind = "ack" -> [st EXCEPT !.conn[e.k].ack = TRUE]
       [] e.kind = "id" -> [Checks(st, {
            <<c.ack, "hs:id-before-ack">>, <<c.sent = "", "hs:two-answers">>, <<e.body = c.id, "hs:wrong-id">>,
            <<~st.cfg.oc \/ c.oc = "ok" \/ c.early, "hs:id-not-accepted">>}) EXCEPT !.conn[e.k].sent = "id"]
       [] e.kind = "no" -> [Checks(st, {
            <<c.cause, "hs:refused-without-cause">>, <<c.sent = "", "hs:two-answers">>,
            <<c.ext \/ c.oc # "err" \/ e.body = c.ocerr, "hs:wrong-refusal">>}) EXCEPT !.conn[e.k].sent = "no"]
       [] e.kind = "raw" -> WrPlain(st0, e)
       [] e.rq = "dup" -> Bad(st, "req:token-reused")
       [] e.rq = "req" /\ e.evt \in LifeReqs -> WrLifeReq(st0, e)
       [] e.rq = "req" -> WrUserReq(st0, e)
       [] e.rq = "rep" -> IF <<e.k, e.wait>> \in DOMAIN st.req THEN WrReply(st0, e) ELSE Bad(st, "reply:unknown")
       [] e.evt \in LifeEvts -> Bad(st, "wire:unexplained")
       [] OTHER -> WrPlain(st0, e)

-----------------------------------------------------------------------------
\* Callbacks

NewRun(e, w) == [k |-> e.k, sd |-> e.sd, ns |-> e.ns, room |-> e.room, evt |-> e.evt, loc |-> e.loc, frc |-> e.frc, w |-> w, bin |-> e.bin, user |-> FALSE,
  nep |-> 0, rep |-> 0, amb |-> FALSE, cons |-> FALSE]

Lost(st, k, sd, f) ==
  /\ f.firm /\ f.d = D(st, k, f.ns) /\ <<k, f.ns>> \notin st.taint
  /\ Handles(st, sd, f.ns, f.evt)
  /\ f.raw => OnlySide(st, sd) \/ Phase(st, k, sd, f.ns).ph = "in"

FrameFor(f, e) == /\ f.ns = e.ns /\ f.room = e.room /\ f.evt = e.evt /\ f.body = e.body /\ f.iserr = e.iserr /\ f.bin = e.bin

AUserCb(st, e) ==
  LET x == <<e.k, e.sd>>
      fs == Get(st.q, x, <<>>)
      hits == {j \in 1 .. Len(fs) : FrameFor(fs[j], e)}
      st1 == Checks(st, {
        <<~\E q \in DOMAIN st.run : st.run[q].user /\ st.run[q].k = e.k /\ st.run[q].sd = e.sd, "cb:overlap">>,
        <<e.rsd = e.sd /\ e.rns = e.ns /\ e.revt = (IF DeclEvt(st, e.sd, e.ns, e.evt) THEN e.evt ELSE "any"), "cb:wrong-registration">>,
        <<~SureOut(st, e.k, e.sd, e.ns), "cb:misaddressed">>,
        <<SureIn(st, e.k, e.sd, e.ns) => e.in, "cb:not-in">>,
        <<~e.loc /\ ~e.frc /\ e.nat = (e.evt = "native"), "cb:wrong-flags">>})
  IN IF hits = {} THEN [Bad(st1, IF \E j \in 1 .. Len(fs) : fs[j].body = e.body /\ fs[j].evt = e.evt THEN "cb:content" ELSE "cb:unmatched")
                        EXCEPT !.run = Put(@, e.q, NewRun(e, ""))]
     ELSE LET j == Min(hits)
              f == fs[j]
              st2 == Check(st1, ~\E m \in 1 .. j - 1 : Lost(st1, e.k, e.sd, fs[m]), "cb:lost-or-reordered")
              st3 == [st2 EXCEPT !.q[x] = SubSeq(fs, j + 1, Len(fs)), !.run = Put(@, e.q, [NewRun(e, f.wait) EXCEPT !.user = TRUE])]
          IN IF f.wait # "" /\ <<e.k, f.wait>> \in DOMAIN st3.req THEN [st3 EXCEPT !.req[<<e.k, f.wait>>].cbq = e.q] ELSE st3

\* an open request of the other side for this lifecycle event
OpenReqs(st, e) == {x \in DOMAIN st.req : LET r == st.req[x] IN
  x[1] = e.k /\ r.kind = "life" /\ r.by = Other(e.sd) /\ r.evt = e.evt /\ r.ns = e.ns /\ r.room = e.room /\ r.cbq = 0
  /\ (~r.done \/ (e.sd = "c" /\ e.evt \in {"disconnect", "leave"}))}   \* a client agrees to these before it tells its application
\* an own request that the other side agreed to
AgreedReqs(st, e, evt) == {x \in DOMAIN st.req : LET r == st.req[x] IN
  x[1] = e.k /\ r.kind = "life" /\ r.by = e.sd /\ r.evt = evt /\ r.ns = e.ns /\ r.room = e.room /\ r.done /\ ~r.riserr /\ ~r.used}
PendOp(st, e, names) == \E i \in DOMAIN st.op : LET o == st.op[i] IN
  o.k = e.k /\ o.sd = e.sd /\ o.op \in names /\ (o.op = "discall" \/ o.ns = e.ns) /\ (o.op \in {"join", "leave"} => o.room = e.room)
\* a pending call whose callback agreed, maybe in an earlier membership
Consent(st, e, name) == \E i \in DOMAIN st.op : LET o == st.op[i] IN
  o.agreed /\ o.op = name /\ o.k = e.k /\ o.sd = e.sd /\ o.ns = e.ns /\ o.room = e.room
Use(st, xs) == IF xs = {} THEN st ELSE LET x == CHOOSE y \in xs : TRUE IN [st EXCEPT !.req[x].used = TRUE]
\* requests are handled in the order they came
First(st, xs) == CHOOSE y \in xs : \A z \in xs : st.req[y].n <= st.req[z].n
Take(st, xs, q) == IF xs = {} THEN st ELSE [st EXCEPT !.req[First(st, xs)].cbq = q]
TokOf(st, xs) == IF xs = {} THEN "" ELSE First(st, xs)[2]

SetLife(st, e, p) == [st EXCEPT !.life = Put(@, <<e.k, e.sd, e.ns>>, p)]
SetRoom(st, e, p) == [st EXCEPT !.room = Put(@, <<e.k, e.sd, e.ns, e.room>>, p)]
RoomsIn(st, k, sd, ns) == {x \in DOMAIN st.room : x[1] = k /\ x[2] = sd /\ x[3] = ns /\ st.room[x].ph # "out"}
\* callbacks of one and the same membership do not overlap
OverlapNs(st, e, ep, evts) == \E q \in DOMAIN st.run : LET r == st.run[q] IN
  r.k = e.k /\ r.sd = e.sd /\ r.ns = e.ns /\ r.nep = ep /\ r.evt \in evts
OverlapRoom(st, e, ep) == \E q \in DOMAIN st.run : LET r == st.run[q] IN
  r.k = e.k /\ r.sd = e.sd /\ r.ns = e.ns /\ r.room = e.room /\ r.rep = ep /\ r.evt \in {"joined", "leave", "left"}

\* both sides asked at the same time: what was asked before it happened may still consult the application
Crossed(st, e, reqs) ==
  IF e.loc THEN \E i \in DOMAIN st.op : LET o == st.op[i] IN
                  /\ o.op = e.evt /\ o.k = e.k /\ o.sd = e.sd /\ o.ns = e.ns /\ o.room = e.room
                  /\ IF e.evt = "connect" THEN ~o.sure ELSE ~o.rsure
  ELSE \E x \in reqs : ~st.req[x].sure

\* a new membership of the same room may have started already
JoinGoing(st, e) == RPhase(st, e.k, e.sd, e.ns, e.room).ok > 0

ALifeCb(st, e) ==
  LET k == e.k
      c == st.conn[k]
      p == Phase(st, k, e.sd, e.ns)
      rp == RPhase(st, k, e.sd, e.ns, e.room)
      op == OpenReqs(st, e)
      reg == <<e.rsd = e.sd /\ e.rns = e.ns /\ e.revt = e.evt, "cb:wrong-registration">>
      go(s, w) == [s EXCEPT !.run = Put(@, e.q, [NewRun(e, w) EXCEPT !.nep = Phase(s, k, e.sd, e.ns).ep, !.rep = RPhase(s, k, e.sd, e.ns, e.room).ep])]
      remote(s) == [go(Take(s, op, e.q), TokOf(st, op)) EXCEPT !.run[e.q].cons = TRUE]
      consult == e.sd = "s" /\ ~e.loc /\ ~e.frc
  IN CASE e.evt = "connect" ->
            LET s == Checks(BumpC(st, k, e.ns), {reg,
                  <<IF e.loc THEN PendOp(st, e, {"connect"}) ELSE op # {}, "life:connect-unasked">>,
                  <<~SureIn(st, k, e.sd, e.ns) \/ Crossed(st, e, op), "life:connect-again">>,
                  <<~e.frc, "life:wrong-flags">>})
            IN IF e.loc THEN go(s, "") ELSE remote(s)
       [] e.evt = "connected" ->
            LET ag == AgreedReqs(st, e, "connect")
                \* the previous membership is over but for its last callback
                tail == p.ph = "in" /\ Ending(st, k, e.sd, e.ns)
                s == Checks(BumpC(st, k, e.ns), {reg,
                  <<p.ph \in {"out", "end"} \/ tail, "life:connected-twice">>,
                  <<p.ok > 0 \/ Consent(st, e, "connect"), "life:connected-without-consent">>,
                  <<e.loc => ag # {}, "life:connected-not-agreed">>,
                  <<e.in, "life:connected-but-not-in">>,
                  <<~e.frc, "life:wrong-flags">>})
            IN LearnIn(go(SetLife(IF e.loc THEN Use(s, ag) ELSE s, e, [ph |-> "in", ok |-> 0, ep |-> p.ep + 1, old |-> p.old + (IF tail THEN 1 ELSE 0)]), ""), k, e.sd, e.ns)
       [] e.evt = "disconnect" ->
            LET ag == AgreedReqs(st, e, "disconnect")
                s == Checks(BumpD(st, k, e.ns), {reg,
                  <<p.ph = "in", "life:disconnect-without-connected">>,
                  <<e.frc => c.cause, "life:forced-without-cause">>,
                  <<~e.frc /\ e.loc => PendOp(st, e, {"disconnect", "discall"}) \/ ag # {}, "life:disconnect-unasked">>,
                  <<~e.frc /\ e.loc => ag # {}, "life:disconnect-not-agreed">>,
                  <<~e.frc /\ ~e.loc => op # {}, "life:disconnect-unasked">>,
                  <<consult \/ RoomsIn(st, k, e.sd, e.ns) = {}, "life:rooms-left-behind">>,
                  <<~OverlapNs(st, e, p.ep, {"connected", "disconnect"} \cup (IF consult THEN {} ELSE {"joined", "leave", "left"})), "life:overlap">>})
            IN IF e.loc /\ ~e.frc /\ p.old > 0 THEN [go(SetLife(Use(s, ag), e, [p EXCEPT !.old = @ - 1]), "") EXCEPT !.run[e.q].nep = p.ep - 1]
               ELSE IF e.loc THEN go(SetLife(IF e.frc THEN s ELSE Use(s, ag), e, [p EXCEPT !.ph = "out"]), "")
               ELSE IF consult THEN remote(SetLife(s, e, [p EXCEPT !.ph = "asked"]))
               ELSE remote(SetLife(s, e, [p EXCEPT !.ph = "out"]))
       [] e.evt = "join" ->
            LET s == Checks(BumpJ(st, k, e.ns, e.room), {reg,
                  <<IF e.loc THEN PendOp(st, e, {"join"}) ELSE op # {}, "life:join-unasked">>,
                  <<~SureRoom(st, k, e.sd, e.ns, e.room) \/ Crossed(st, e, op), "life:join-again">>,
                  <<~e.frc, "life:wrong-flags">>})
            IN IF e.loc THEN go(s, "") ELSE remote(s)
       [] e.evt = "joined" ->
            LET ag == AgreedReqs(st, e, "join")
                s == Checks(BumpJ(st, k, e.ns, e.room), {reg,
                  <<rp.ph \in {"out", "leaving"}, "life:joined-twice">>,
                  <<rp.ok > 0 \/ Consent(st, e, "join"), "life:joined-without-consent">>,
                  <<e.loc => ag # {}, "life:joined-not-agreed">>,
                  <<p.ph \in {"in", "asked", "end"} \/ p.ok > 0, "life:joined-outside-namespace">>,
                  <<e.rin, "life:joined-but-not-in">>,
                  <<~e.frc, "life:wrong-flags">>})
            IN LearnRoom(go(SetRoom(IF e.loc THEN Use(s, ag) ELSE s, e, [ph |-> "in", ok |-> 0, ep |-> rp.ep + 1, old |-> rp.old + (IF rp.ph = "leaving" THEN 1 ELSE 0)]), ""), k, e.sd, e.ns, e.room)
       [] e.evt = "leave" ->
            LET ag == AgreedReqs(st, e, "leave")     \* the own leave callback is not marked as local
                amb == ~e.frc /\ ~e.loc /\ ag # {} /\ op # {}
                own == ~e.frc /\ ag # {} /\ ~amb
                s == Checks(BumpL(st, k, e.ns, e.room), {reg,
                  <<rp.ph \in {"in", "inamb"}, "life:leave-without-joined">>,
                  <<e.frc => c.cause \/ p.ph = "end" \/ PendEnd(st, k, e.ns)
                       \/ \E x \in DOMAIN st.req : x[1] = k /\ st.req[x].evt = "disconnect" /\ st.req[x].ns = e.ns, "life:forced-without-cause">>,
                  <<~e.frc /\ e.loc => ag # {}, "life:leave-not-agreed">>,
                  <<~e.frc /\ ~e.loc => op # {} \/ ag # {}, "life:leave-unasked">>,
                  <<~OverlapRoom(st, e, rp.ep), "life:overlap">>})
            IN IF e.frc THEN go(SetRoom(s, e, [rp EXCEPT !.ph = "leaving"]), "")
               ELSE IF own \/ e.loc THEN go(SetRoom(Use(s, ag), e, [rp EXCEPT !.ph = "leaving"]), "")
               ELSE IF amb THEN [remote(SetRoom(s, e, [rp EXCEPT !.ph = "asked"])) EXCEPT !.run[e.q].amb = TRUE]
               ELSE remote(SetRoom(s, e, [rp EXCEPT !.ph = IF consult THEN "asked" ELSE "leaving"]))
       [] e.evt = "left" ->
            LET s == Checks(BumpL(st, k, e.ns, e.room), {reg,
                  <<rp.ph \in {"leaving", "inamb"} \/ rp.old > 0, "life:left-without-leave">>,
                  <<~e.rin \/ rp.old > 0 \/ JoinGoing(st, e), "life:left-but-in">>,
                  <<rp.old > 0 \/ ~OverlapRoom(st, e, rp.ep), "life:overlap">>})
            IN IF rp.old > 0 THEN [go(SetRoom(s, e, [rp EXCEPT !.old = @ - 1]), "") EXCEPT !.run[e.q].rep = rp.ep - 1]
               ELSE go(SetRoom(s, e, [rp EXCEPT !.ph = "out"]), "")

ACb(st, e) ==
  LET c == st.conn[e.k]
      st1 == Checks(st, {
        <<e.sd = "c" \/ ~st.cfg.oc \/ c.oc = "ok" \/ c.early \/ Only(st), IF c.oc = "err" THEN "hs:callback-of-refused" ELSE "hs:callback-before-accepted">>,
        <<e.sd = "c" \/ c.oc # "err" \/ c.early \/ Only(st), "hs:callback-of-refused">>,  \* a native message may be on its way to its callback already
        <<e.sd = "c" \/ c.sent = "id" \/ Only(st) \/ c.cause, "hs:callback-before-handshake">>})
  IN IF e.evt \in LifeEvts THEN ALifeCb(st1, e) ELSE AUserCb(st1, e)

ACbx(st, e) ==
  LET r == st.run[e.q]
      st1 == [st EXCEPT !.run = Del(@, e.q), !.lastcb = Put(@, <<r.k, r.sd, r.ns>>, st.n)]
      x == <<r.k, r.w>>
      p == Phase(st, r.k, r.sd, r.ns)
      rp == RPhase(st, r.k, r.sd, r.ns, r.room)
      st2 == IF r.w # "" /\ x \in DOMAIN st1.req THEN [st1 EXCEPT !.req[x].cres = e.res, !.req[x].cv = e.v] ELSE st1
      ops(name) == {i \in DOMAIN st.op : LET o == st.op[i] IN o.op = name /\ o.k = r.k /\ o.sd = r.sd /\ o.ns = r.ns /\ (name = "connect" \/ o.room = r.room)}
      agree(s, name) == [s EXCEPT !.op = [i \in DOMAIN @ |-> IF r.loc /\ i \in ops(name) THEN [@[i] EXCEPT !.agreed = TRUE] ELSE @[i]]]
      veto(s, name) == [s EXCEPT !.op = [i \in DOMAIN @ |-> IF i \in ops(name) THEN [@[i] EXCEPT !.errs = @ \cup {e.v}] ELSE @[i]]]
  IN CASE r.evt = "connect" ->
            IF e.res = "nil" THEN agree(SetLife(st2, r, [p EXCEPT !.ok = @ + 1]), "connect")
            ELSE IF r.loc THEN veto(st2, "connect") ELSE st2
       [] r.evt = "join" ->
            IF e.res = "nil" THEN agree(SetRoom(st2, r, [rp EXCEPT !.ok = @ + 1]), "join")
            ELSE IF r.loc THEN veto(st2, "join") ELSE st2
       [] r.evt = "disconnect" ->
            IF p.ph = "asked" /\ r.cons THEN SetLife(st2, r, [p EXCEPT !.ph = IF e.res = "nil" THEN "end" ELSE "in", !.ok = 0]) ELSE st2
       [] r.evt = "leave" ->
            IF rp.ph = "asked" /\ r.cons THEN SetRoom(st2, r, [rp EXCEPT !.ph = IF e.res = "nil" THEN "leaving" ELSE IF r.amb THEN "inamb" ELSE "in"]) ELSE st2
       [] r.evt \in {"connected", "joined", "left"} -> st2
       [] r.user /\ r.w = "" /\ e.res # "nil" /\ ~Only(st) /\ r.evt # "native" ->
            [st2 EXCEPT !.owed = @ \cup {[q |-> e.q, k |-> r.k, sd |-> r.sd, ns |-> r.ns, room |-> r.room, evt |-> r.evt, body |-> e.v,
               iserr |-> e.res = "err", bin |-> r.bin, must |-> CanSurely(st2, r.k, r.sd, r.ns, r.room), l |-> L(st2, r.k, r.ns, r.room)]}]
       [] OTHER -> st2

-----------------------------------------------------------------------------
\* The server's OnConnect and OnDisconnect, the network, exchanges

Pseudo(k, q) == [k |-> k, sd |-> "s", ns |-> "", room |-> "", evt |-> "server", loc |-> TRUE, frc |-> FALSE, w |-> "", bin |-> FALSE, user |-> FALSE,
  nep |-> 0, rep |-> 0, amb |-> FALSE, cons |-> FALSE]

AOc(st, e) ==
  LET c == st.conn[e.k] IN
  [Checks(st, {<<c.oc = "none", "hs:onconnect-twice">>, <<e.id = c.id, "hs:onconnect-wrong-id">>})
   EXCEPT !.conn[e.k].oc = "in", !.run = Put(@, 0 - e.k, Pseudo(e.k, 0))]

AOcx(st, e) ==
  LET c == st.conn[e.k]
      st1 == [st EXCEPT !.run = Del(@, 0 - e.k)]
  IN IF e.res = "" THEN [st1 EXCEPT !.conn[e.k].oc = "ok"]
     ELSE [st1 EXCEPT !.conn[e.k].oc = "err", !.conn[e.k].ocerr = e.res, !.conn[e.k].pre = c.cause, !.conn[e.k].cause = TRUE, !.conn[e.k].dvall = @ + 1]

AUp(st, e) ==
  LET c == st.conn[e.k]
      st1 == Checks(st, {
        <<e.ok => c.oc # "err", "hs:upgraded-though-refused">>,
        <<e.ok => ~c.late, "hs:upgraded-on-closed-server">>,
        <<e.ok => ~st.cfg.oc \/ c.oc = "ok", "hs:upgraded-without-onconnect">>})
  IN [st1 EXCEPT !.conn[e.k].up = IF e.ok THEN "ok" ELSE "no", !.conn[e.k].acc = e.ok /\ ~c.cause,
                 !.conn[e.k].cause = @ \/ ~e.ok, !.conn[e.k].ext = @ \/ (~e.ok /\ c.oc # "err"), !.conn[e.k].dvall = @ + (IF e.ok THEN 0 ELSE 1)]

AOd(st, e) ==
  LET c == st.conn[e.k] IN
  [Checks(st, {
      <<c.od = 0, "reg:ondisconnect-twice">>,
      <<c.cause, "reg:ondisconnect-without-end">>,
      <<~e.listed, "reg:ondisconnect-still-listed">>,
      <<e.nss = 0 \/ Only(st), "reg:ondisconnect-before-namespaces">>,
      <<e.closed, "reg:ondisconnect-not-closed">>,
      <<st.cfg.always \/ c.oc # "err" \/ c.pre, "reg:ondisconnect-of-refused">>,
      <<st.cfg.always \/ ~st.cfg.oc \/ c.oc \in {"ok", "err"} \/ c.early \/ Only(st), "reg:ondisconnect-of-unaccepted">>})
   EXCEPT !.conn[e.k].od = @ + 1, !.run = Put(@, 0 - 1000 - e.k, Pseudo(e.k, 0))]

AExc(st, e) ==
  LET x == <<e.srv, e.x, e.k>>
      r == Get(st.exc, x, [con |-> 0, dis |-> 0, subs |-> {}])
  IN IF e.what \in {"ask", "notify"} THEN st
     ELSE CASE e.what = "refuse" -> Cause(st, e.k)
            [] e.what = "connect" -> [Check(st, r.con = 0, "exc:connected-twice") EXCEPT !.exc = Put(@, x, [r EXCEPT !.con = 1])]
            [] e.what = "disconnect" -> [Checks(st, {<<r.dis = 0, "exc:disconnected-twice">>, <<r.subs = {}, "exc:disconnected-subscribed">>,
                                              <<st.conn[e.k].cause, "exc:disconnected-without-end">>})
                                         EXCEPT !.exc = Put(@, x, [r EXCEPT !.dis = 1])]
            [] e.what = "sub" -> [Checks(st, {<<e.ns \notin r.subs, "exc:subscribed-twice">>, <<r.con = 1 /\ r.dis = 0, "exc:subscribed-unconnected">>})
                                  EXCEPT !.exc = Put(@, x, [r EXCEPT !.subs = @ \cup {e.ns}])]
            [] e.what = "unsub" -> [Check(st, e.ns \in r.subs, "exc:unsubscribed-twice") EXCEPT !.exc = Put(@, x, [r EXCEPT !.subs = @ \ {e.ns}])]

-----------------------------------------------------------------------------
\* Nothing moves: every obligation is due.

\* refused, but the peer never said hello
Limbo(st, k) == LET c == st.conn[k] IN c.cause /\ ~c.ext /\ c.raw /\ ~c.ack

\* calls that may still be pending
Direct(st, i, t) ==
  LET o == st.op[i]
      c == st.conn[o.k]
      live == ~Overdue(st, o, t) /\ (~c.cause \/ Limbo(st, o.k))
      \* a write that timed out may have been the answer
      lost == c.slow /\ st.cfg.wt > 0
  IN CASE o.op = "ask" ->
            /\ live
            /\ \/ c.raw \/ lost
               \/ \E tk \in o.toks : LET r == st.req[<<o.k, tk>>] IN
                    ~r.done /\ ((r.cbq # 0 /\ r.cres = "nil") \/ ~Handles(st, Other(o.sd), o.ns, o.evt))
       [] o.op = "sask" -> ~Overdue(st, o, t) /\ \A x \in DOMAIN st.req : st.req[x].i = i /\ st.req[x].done => st.conn[x[1]].cause
       [] o.op = "waitconnect" -> live /\ Phase(st, o.k, o.sd, o.ns).ph # "in"
       [] o.op \in LifeOps -> live /\ (c.raw \/ lost \/ (o.op = "connect" /\ o.sd = "s" /\ c.sent # "id"))
       [] OTHER -> FALSE
Stalled(st, i) ==
  LET o == st.op[i] IN
  IF o.op \in {"bcast", "sask", "srvclose"} THEN \E k \in DOMAIN st.conn : st.conn[k].stall # {}
  ELSE o.op # "query" /\ Known(st, o.k) /\ st.conn[o.k].stall # {}
Nested(st, q) == {i \in DOMAIN st.op : st.op[i].par = q}
\* call i cannot end before callback q: q keeps the other side's reader, or the same membership, busy
Behind(st, i, q) ==
  LET o == st.op[i]
      r == st.run[q]
  IN /\ r.k = o.k /\ o.par # q
     /\ \/ r.sd = Other(o.sd) /\ (~r.loc \/ (r.evt = "connected" /\ r.ns = o.ns))
        \/ o.op \in LifeOps /\ r.evt \in LifeEvts /\ (r.ns = o.ns \/ o.op = "discall")
\* callbacks that wait for each other in a circle: only contexts end that
Waits(st) == {<<i, j>> \in (DOMAIN st.op) \X (DOMAIN st.op) :
                 \/ st.op[j].par # 0 /\ st.op[j].par \in DOMAIN st.run /\ Behind(st, i, st.op[j].par)
                 \* a client answers a disconnect after its own connect
                 \/ st.op[i].op \in {"disconnect", "discall", "leave", "leaveall"} /\ st.op[i].sd = "s" /\ st.op[j].op \in {"connect", "join"} /\ st.op[j].sd = "c" /\ st.op[i].k = st.op[j].k
                 \* and a connect after its own disconnect
                 \/ st.op[i].op \in {"connect", "join"} /\ st.op[i].sd = "s" /\ st.op[j].op \in {"disconnect", "discall", "leave", "leaveall"} /\ st.op[j].sd = "c" /\ st.op[i].k = st.op[j].k
                 \* a side that connects (again, after it gave up on an attempt the other side then answered) keeps the namespace's messages until its answer is there
                 \/ st.op[i].op \in {"ask", "join", "leave"} /\ st.op[j].op = "connect" /\ st.op[j].sd = Other(st.op[i].sd) /\ st.op[i].k = st.op[j].k /\ st.op[i].ns = st.op[j].ns
                      /\ st.op[j].toks # {} /\ \A tk \in st.op[j].toks : ~st.req[<<st.op[j].k, tk>>].done
                 \/ i # j /\ st.op[i].op \in {"connect", "join"} /\ st.op[i].toks = {} /\ st.op[j].op = st.op[i].op
                      /\ <<st.op[i].k, st.op[i].sd, st.op[i].ns, st.op[i].room>> = <<st.op[j].k, st.op[j].sd, st.op[j].ns, st.op[j].room>>}
RECURSIVE ReachFrom(_, _, _)
ReachFrom(E, S, n) == LET S2 == S \cup {x[2] : x \in {y \in E : y[1] \in S}} IN IF S2 = S \/ n = 0 THEN S2 ELSE ReachFrom(E, S2, n - 1)
Circles(E) == {a \in {x[1] : x \in E} : a \in ReachFrom(E, {x[2] : x \in {y \in E : y[1] = a}}, 12)}
\* the calls that end up waiting for such a circle
Circular(st) == LET E == Waits(st) C == Circles(E) IN
                IF C = {} THEN {} ELSE {i \in DOMAIN st.op : ReachFrom(E, {i}, 12) \cap C # {}}
RECURSIVE Excused(_, _, _, _)
Excused(st, t, E, n) ==
  LET blocked(q) == q \in st.held \/ Nested(st, q) \cap E # {}
      busyq == {q \in DOMAIN st.run : blocked(q)}
      circ == Circular(st)
      busy == {st.run[q].k : q \in busyq}
      own(o) == \E q \in busyq : st.run[q].k = o.k /\ st.run[q].sd = o.sd /\ (st.run[q].loc \/ (st.run[q].evt \in {"leave", "left"} /\ st.run[q].ns = o.ns))
      E2 == E \cup {i \in DOMAIN st.op : LET o == st.op[i] IN
              CASE o.op \in {"bcast", "srvclose"} -> \E k \in busy : st.conn[k].srv = o.srv
                \* the answer may come while the reader is in a callback
                [] o.op = "sask" -> ~Overdue(st, o, t) /\ \A x \in DOMAIN st.req : st.req[x].i = i /\ st.req[x].done => st.conn[x[1]].cause \/ x[1] \in busy
                [] o.op = "query" -> FALSE
                \* a callback keeps Close busy, it did not get to that connection yet
                [] OTHER -> \/ ~Overdue(st, o, t) /\ \E j \in E : st.op[j].op = "srvclose" /\ Known(st, o.k) /\ st.op[j].srv = st.conn[o.k].srv
                            \/ o.k \in busy /\ (o.ctx > 0 /\ Overdue(st, o, t) => own(o))
                            \/ i \in circ /\ ~Overdue(st, o, t)
                            \/ ~Overdue(st, o, t) /\ \E j \in E : st.op[j].k = o.k /\ st.op[j].op \in LifeOps /\ o.op \in LifeOps}
  IN IF E2 = E \/ n = 0 THEN E2 ELSE Excused(st, t, E2, n - 1)
ExcusedOps(st, t) == Excused(st, t, {i \in DOMAIN st.op : Direct(st, i, t) \/ Stalled(st, i)}, 8)

\* nothing is going on that concerns connection k
Calm(st, k) ==
  /\ ~\E q \in DOMAIN st.run : st.run[q].k = k
  /\ \A i \in DOMAIN st.op : LET o == st.op[i] IN
       \/ o.k # k /\ ~(o.op = "srvclose" /\ o.srv = st.conn[k].srv)
       \/ o.op \in {"ask", "waitconnect", "bcast", "query"} /\ o.par = 0
       \/ o.op = "connect" /\ o.sd = "s" /\ st.conn[k].sent # "id" /\ o.par = 0
  /\ st.conn[k].stall = {}
\* both ends must have noticed the end
Ended(st, k) == st.conn[k].cause /\ Calm(st, k) /\ ~Limbo(st, k)

QuietConn(st, e, p) ==   \* p: what end p.sd of connection p.k reports
  LET k == p.k
      c == st.conn[k]
      nss == Ran(p.nss)
      rms == Ran(p.rms)
      calm == Calm(st, k)
      mine == {x \in DOMAIN st.life : x[1] = k /\ x[2] = p.sd}
      myrooms == {x \in DOMAIN st.room : x[1] = k /\ x[2] = p.sd}
      free == ~Only(st)
  IN Checks(st, {
      <<p.closed => c.cause, "close:without-cause">>,
      <<Ended(st, k) => p.closed, "close:not-noticed">>,
      <<calm => ~p.odd, "close:notify-mismatch">>,
      <<p.id = c.id \/ Only(st) \/ (p.sd = "c" /\ c.dial # "ok"), "hs:wrong-id">>,
      <<calm /\ p.closed /\ free => nss = {} /\ rms = {}, "close:membership-left">>,
      <<calm /\ free => nss = {x[3] : x \in {y \in mine : st.life[y].ph \in {"in", "asked"}}}, "life:phase-mismatch">>,
      <<calm /\ free => rms = {<<x[3], x[4]>> : x \in {y \in myrooms : st.room[y].ph \in {"in", "asked"} \/ (st.room[y].ph = "inamb" /\ <<y[3], y[4]>> \in rms)}}, "life:room-phase-mismatch">>,
      <<Len(p.rms) = Cardinality(rms), "life:room-listed-twice">>})

\* the two ends of k agree
QuietAgree(st, e, k) ==
  LET ps == {p \in Ran(e.pr) : p.k = k}
      untainted(s) == {n \in s : <<k, n>> \notin st.taint}
      runt(s) == {n \in s : <<k, n[1]>> \notin st.taint}
  IN IF Cardinality(ps) < 2 \/ ~Calm(st, k) \/ st.conn[k].inj \/ Only(st) THEN st
     ELSE LET a == CHOOSE p \in ps : p.sd = "s"
              b == CHOOSE p \in ps : p.sd = "c"
          IN IF a.closed \/ b.closed THEN st
             ELSE Checks(st, {<<untainted(Ran(a.nss)) = untainted(Ran(b.nss)), "agree:namespaces">>,
                              <<runt(Ran(a.rms)) = runt(Ran(b.rms)), "agree:rooms">>})

\* messages that nobody handled
QuietQueue(st, x) ==
  LET k == x[1]
      c == st.conn[k]
      fs == st.q[x]
      wait == x[2] = "s" /\ c.sent = "" /\ ~Only(st) /\ ~c.cause    \* not accepted yet
      ready == Calm(st, k) /\ ~wait
  IN IF ~ready THEN st
     ELSE [Check(st, c.cause \/ ~\E j \in 1 .. Len(fs) : Lost(st, k, x[2], fs[j]), "cb:lost") EXCEPT !.q = Del(@, x)]

QuietOwed(st) ==
  LET due == {x \in st.owed : Calm(st, x.k)}
  IN [Check(st, ~\E x \in due : x.must /\ L(st, x.k, x.ns, x.room) = x.l /\ ~st.conn[x.k].cause /\ ~st.conn[x.k].slow, "reply:missing")
      EXCEPT !.owed = @ \ due]

\* requests whose callback produced a result that was not sent
QuietReqs(st) ==
  Check(st, ~\E x \in DOMAIN st.req : LET r == st.req[x] IN
      r.kind = "user" /\ r.cres \in {"rep", "err"} /\ ~r.done /\ Calm(st, x[1]) /\ ~st.conn[x[1]].cause /\ ~st.conn[x[1]].slow, "reply:missing")

QuietBcast(st, i) ==
  LET b == st.bc[i]
      \* one at a time: it waits for a slow connection, or for the callbacks of one that it found closed
      blockedSync == st.cfg.sync /\ ((\E k \in DOMAIN st.conn : st.conn[k].stall # {}) \/ (\E j \in DOMAIN st.op : st.op[j].op \in {"bcast", "sask"}))
      lost == {m \in b.must : /\ <<m[1], m[2]>> \notin b.got
                              /\ L(st, m[1], b.msgs[m[2]].ns, b.msgs[m[2]].room) = m[3]
                              /\ ~st.conn[m[1]].cause /\ st.conn[m[1]].stall = {} /\ ~st.conn[m[1]].slow}
  IN IF blockedSync \/ (b.ret = 0 /\ b.op = "bcast") THEN st
     ELSE [Check(st, lost = {}, "bcast:lost") EXCEPT !.bc[i].must = {}]

QuietServer(st, e, s) ==   \* s: <<server, count, Do, GetConnections, by namespace>>
  LET si == s[1]
      do == Ran(s[3])
      ks == ConnsOf(st, si)
      ids(S) == {st.conn[k].id : k \in S \cap DOMAIN st.conn}
      inNs(k, ns) == \E p \in Ran(e.pr) : p.k = k /\ p.sd = "s" /\ ns \in Ran(p.nss)
  IN Checks(st, {
      <<s[2] = Len(s[3]), "reg:count">>,
      <<Cardinality(do) = Len(s[3]), "reg:listed-twice">>,
      <<do \subseteq ks, "reg:foreign">>,
      <<\A k \in ks : st.conn[k].up = "ok" /\ ~st.conn[k].cause => k \in do, "reg:missing">>,
      <<\A k \in ks : Ended(st, k) => k \notin do, "reg:dead-listed">>,
      <<Ran(s[4]) \subseteq do /\ ids(Ran(s[4])) = ids(do) /\ Len(s[4]) = Cardinality(ids(do)), "reg:connections">>,
      <<\A j \in 1 .. Len(s[5]) : LET by == Ran(s[5][j][2]) mem == {k \in do : inNs(k, s[5][j][1])} IN
           by \subseteq mem /\ ids(by) = ids(mem), "reg:by-namespace">>})

\* a server's OnDisconnect handles one connection at a time
OdBusy(st, srv) == \E q \in DOMAIN st.run : q < 0 - 1000 /\ st.conn[st.run[q].k].srv = srv
QuietOd(st, k) ==
  LET c == st.conn[k] IN
  IF ~Ended(st, k) \/ OdBusy(st, c.srv) THEN st
  ELSE Checks(st, {
      <<c.acc => c.od = 1, "reg:ondisconnect-missing">>,
      <<st.cfg.always /\ c.oc \in {"ok", "err"} => c.od = 1, "reg:ondisconnect-missing-always">>})

QuietExc(st, e, k) ==
  LET c == st.conn[k]
      xs == {x \in DOMAIN st.exc : x[3] = k}
      nss == UNION {Ran(p.nss) : p \in {y \in Ran(e.pr) : y.k = k /\ y.sd = "s"}}
      want == IF st.cfg.exc \in {"fake2", "fake2fail", "fake2ref"} THEN 2 ELSE 1
  IN IF st.cfg.exc = "" \/ st.cfg.live \/ ~Calm(st, k) \/ c.up = "none" \/ (c.srv \in st.sclosed /\ xs = {}) THEN st
     ELSE Checks(st, {
        <<c.up # "ok" \/ Cardinality(xs) = want, "exc:not-told">>,
        <<Ended(st, k) /\ ~OdBusy(st, c.srv) => \A x \in xs : st.exc[x].con = 1 => st.exc[x].dis = 1, "exc:end-not-told">>,
        <<\A x \in xs : st.exc[x].con = 1 => st.exc[x].subs = nss, "exc:subscriptions">>})

\* from now on the memberships are known
Learn(st, e, p) ==
  LET k == p.k
      nss == Ran(p.nss)
      rms == Ran(p.rms)
      all == {st.cfg.decl[j][2] : j \in 1 .. Len(st.cfg.decl)}
      calm == Calm(st, k)
      seen == {x \in DOMAIN st.room : x[1] = k /\ x[2] = p.sd}
      s1 == IF calm /\ ~p.closed
            THEN [st EXCEPT
              !.sin = [x \in {<<k, p.sd, n>> : n \in nss} |-> D(st, k, x[3])] @@ @,
              !.sout = [x \in {<<k, p.sd, n>> : n \in all \ nss} |-> CV(st, k, x[3])] @@ @,
              !.rin = [x \in {<<k, p.sd, r[1], r[2]>> : r \in rms} |-> L(st, k, x[3], x[4])] @@ @,
              !.rout = [x \in {y \in seen : <<y[3], y[4]>> \notin rms} |-> JV(st, k, x[3], x[4])] @@ @]
            ELSE st
  IN IF p.closed /\ calm /\ ~Only(st) THEN [s1 EXCEPT !.conn[k].closed = TRUE] ELSE s1

\* calls given up half-way leave no doubt once both ends say the same
Untaint(st, e, k) ==
  LET ps == {p \in Ran(e.pr) : p.k = k}
  IN IF ~Calm(st, k) \/ Cardinality(ps) < 2 THEN st
     ELSE [st EXCEPT !.taint = {x \in @ : x[1] # k \/
             ~(\A p, q \in ps : (x[2] \in Ran(p.nss) <=> x[2] \in Ran(q.nss))
                  /\ {r \in Ran(p.rms) : r[1] = x[2]} = {r \in Ran(q.rms) : r[1] = x[2]})}]

\* leftovers of glare are forgotten
Settle(st) ==
  [st EXCEPT !.life = [x \in DOMAIN @ |-> IF Calm(st, x[1]) THEN [@[x] EXCEPT !.ok = 0, !.ph = IF @ = "end" THEN "out" ELSE @] ELSE @[x]],
             !.room = [x \in DOMAIN @ |-> IF Calm(st, x[1]) THEN [@[x] EXCEPT !.ok = 0] ELSE @[x]]]

Stuck(st, e) ==
  LET ok == IF e.final THEN {i \in DOMAIN st.op : st.op[i].op = "sask" /\ st.op[i].ctx = 0} ELSE ExcusedOps(st, e.t)
      bad == DOMAIN st.op \ ok
  IN FoldSet(LAMBDA i, s : Bad(s, "stuck:" \o st.op[i].op \o (IF st.op[i].par # 0 THEN "-nested" ELSE "")
                                   \o (IF e.final THEN "-final" ELSE IF st.op[i].k # 0 /\ Known(st, st.op[i].k) /\ st.conn[st.op[i].k].cause THEN "-closed"
                                       ELSE IF Overdue(st, st.op[i], e.t) THEN "-expired" ELSE "")), st, bad)

\* the subscriptions of a broker are a function of the connections and their namespaces
QuietSubs(st, e) ==
  IF ~st.cfg.live \/ DOMAIN st.op # {} \/ DOMAIN st.run # {} \/ st.held # {} THEN st
  ELSE LET up == {p \in Ran(e.pr) : p.sd = "s" /\ ~p.closed}
           nss == {st.cfg.decl[j][2] : j \in 1 .. Len(st.cfg.decl)}
           key == <<Cardinality(up), [ns \in nss |-> Cardinality({p \in up : ns \in Ran(p.nss)})]>>
       IN IF up = {} THEN Check(st, e.subs = 0, "exc:broker-subscriptions-left")
          ELSE IF key \in DOMAIN st.subs THEN Check(st, st.subs[key] = e.subs, "exc:broker-subscriptions")
          ELSE [st EXCEPT !.subs = Put(@, key, e.subs)]

AQuiet(st, e) ==
  LET prs == e.pr
      s1 == Stuck(st, e)
      s2 == FoldSeq(LAMBDA p, s : QuietConn(s, e, p), s1, prs)
      s3 == FoldSet(LAMBDA k, s : QuietAgree(s, e, k), s2, DOMAIN st.conn)
      s4 == FoldSet(LAMBDA x, s : QuietQueue(s, x), s3, DOMAIN st.q)
      s5 == QuietReqs(QuietOwed(s4))
      s6 == FoldSet(LAMBDA i, s : QuietBcast(s, i), s5, DOMAIN st.bc)
      s7 == FoldSeq(LAMBDA x, s : QuietServer(s, e, x), s6, e.srv)
      s8 == FoldSet(LAMBDA k, s : QuietExc(QuietOd(s, k), e, k), s7, DOMAIN st.conn)
      s9 == FoldSet(LAMBDA k, s : Untaint(s, e, k), s8, DOMAIN st.conn)
      s10 == FoldSeq(LAMBDA p, s : Learn(s, e, p), s9, prs)
      s11 == QuietSubs(IF e.final THEN Check(s10, DOMAIN s10.run = {}, "stuck:callback-final") ELSE s10, e)
  IN Settle(s11)

-----------------------------------------------------------------------------

Apply(st0, e) ==
  LET st == [st0 EXCEPT !.n = @ + 1]
  IN CASE e.e = "call" -> ACall(st, e)
       [] e.e = "ret" -> ARet(st, e)
       [] e.e = "cb" -> ACb(st, e)
       [] e.e = "cbx" -> ACbx(st, e)
       [] e.e = "wr" -> AWr(st, e)
       [] e.e = "hold" -> [st EXCEPT !.held = @ \cup {e.q}]
       [] e.e = "rel" -> [st EXCEPT !.held = @ \ {e.q}]
       [] e.e = "oc" -> AOc(st, e)
       [] e.e = "ocx" -> AOcx(st, e)
       [] e.e = "up" -> AUp(st, e)
       [] e.e = "od" -> AOd(st, e)
       [] e.e = "odx" -> [st EXCEPT !.run = Del(@, 0 - 1000 - e.k)]
       [] e.e = "cancel" -> \* the contexts of these calls end now
            [st EXCEPT !.op = [i \in DOMAIN @ |-> IF i \in Ran(e.ops) THEN [@[i] EXCEPT !.ctx = 1, !.t = e.t - 1] ELSE @[i]]]
       [] e.e \in {"drop", "rto"} -> Cause(st, e.k)
       [] e.e = "nc" -> BumpAll(Check(st, st.conn[e.k].cause, "close:without-cause"), e.k)
       [] e.e = "sc" -> LET x == <<e.k, e.sd, e.key>> IN
            [st EXCEPT !.store = Put(@, x, ObjCall(Get(@, x, NewObj), e.i, [f |-> e.f, arg |-> Val(e.t, e.v)]))]
       [] e.e = "sr" -> LET x == <<e.k, e.sd, e.key>>
                            S == ObjRet(st.store[x], e.i, Val(e.t, e.v))
                        IN IF S = {} THEN [Bad(st, "store:" \o e.f) EXCEPT !.store = Put(@, x, NewObj)]
                           ELSE [st EXCEPT !.store = Put(@, x, S)]
       [] e.e = "stall" -> [st EXCEPT !.conn[e.k].stall = @ \cup {e.sd}, !.conn[e.k].slow = TRUE]
       [] e.e = "unstall" -> [st EXCEPT !.conn[e.k].stall = @ \ {e.sd}]
       [] e.e = "exc" -> AExc(st, e)
       [] e.e = "quiet" -> AQuiet(st, e)
       [] e.e = "closeall" -> [st EXCEPT !.over = TRUE]
       [] e.e = "panic" -> Bad(st, "crash:panic")
       [] e.e = "spin" -> Bad(st, "crash:spin")
       [] e.e = "probestuck" -> Bad(st, "stuck:query")
       [] OTHER -> st
=============================================================================
