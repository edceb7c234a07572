------------------------------- MODULE Member -------------------------------
(* How the two sides of a connection agree on one membership (a namespace,   *)
(* or a room of a namespace when Room): the protocol of Connect/Disconnect   *)
(* and JoinRoom/Leave as the library implements it, one action per critical  *)
(* section. Requests and answers travel in order; a side handles requests    *)
(* one at a time, answers may be read ahead while it is busy. The steps of   *)
(* one membership (add, end) run one after another, each with a callback.    *)
(* The configuration says which calls are made, all may run at once, and     *)
(* every callback may refuse what it is allowed to refuse.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Room,     \* BOOLEAN: join/leave instead of connect/disconnect
          Scripts,  \* the possible sets of calls: sequences of <<side, "up" or "down">>
          Rule      \* the parts of the protocol that are taken away (to see that they are needed)

Sides == {"c", "s"}
Peer(x) == IF x = "c" THEN "s" ELSE "c"

VARIABLES
  calls, \* the calls that are made, all of them may run at once
  op,    \* call -> [pc, ans, res, gen]: where it is, the answer of the remote side, its result, the membership it works on
  up,    \* call -> the "up" process of its side is held by it; addp: until it added
  addp, down,
  xs,    \* the calls that hold the request lock of their side: from sending a request until its result is applied
  rd,    \* side -> [pc, msg, gen]: the reader
  ch,    \* side -> messages on their way to it
  cur,   \* side -> the current membership, 0 if none
  inst,  \* side -> its memberships: [ended, runner, steps]
  log    \* side -> what the application saw, per membership

Ids == 1 .. Len(calls)
Side(i) == calls[i][1]
Kind(i) == calls[i][2]
Off(r) == r \in Rule

vars == <<calls, op, up, addp, down, xs, rd, ch, cur, inst, log>>

Init == /\ calls \in Scripts
        /\ op = [i \in Ids |-> [pc |-> "new", ans |-> "no", res |-> "", gen |-> 0]]
        /\ up = {} /\ addp = {} /\ down = {} /\ xs = {}
        /\ rd = [x \in Sides |-> [pc |-> "idle", msg |-> <<>>, gen |-> 0]]
        /\ ch = [x \in Sides |-> <<>>]
        /\ \E c \in {0, 1} : \* connected, or not
             /\ cur = [x \in Sides |-> c]
             /\ inst = [x \in Sides |-> IF c = 0 THEN <<>> ELSE <<[ended |-> FALSE, runner |-> <<>>, steps |-> <<>>]>>]
             /\ log = [x \in Sides |-> IF c = 0 THEN <<>> ELSE <<<<1, "up">>>>]

Held(set, x) == {i \in set : Side(i) = x}
\* the remote side has answered the request of the running process
Answered(set, x) == \E i \in Held(set, x) : op[i].ans # "no" /\ op[i].pc # "new"
Ending(x) == \E g \in DOMAIN inst[x] : \E j \in DOMAIN inst[x][g].steps : inst[x][g].steps[j].k = "enda" /\ inst[x][g].steps[j].ph = 1
\* before the opposite request is handled: the client waits for its own, the server only if that is answered
WaitOK(set, x) == IF x = "c" /\ ~Off("client-waits") THEN Held(set, x) = {} ELSE IF Off("answered-waits") THEN TRUE ELSE Answered(set, x) => Held(set, x) = {}
\* the client holds the opposite process while it decides and answers, so its own request is either before or after that
HoldOK(set, x) == x = "s" \/ Off("client-holds") \/ Held(set, x) = {}
EndOK(x) == Off("end-waits") \/ ~Ending(x)

Send(x, m) == [ch EXCEPT ![Peer(x)] = Append(@, m)]
Req(i) == [t |-> "req", id |-> i]
Rep(i, e) == [t |-> "rep", id |-> i, err |-> e]
Goto(i, pc) == [op EXCEPT ![i].pc = pc]
Finish(i, r) == [op EXCEPT ![i].pc = "done", ![i].res = r]
Alive(x) == cur[x] # 0 /\ ~inst[x][cur[x]].ended

-----------------------------------------------------------------------------
\* the steps of a membership: whoever comes first runs them, the others leave theirs to it
Do(x, g, step, who) ==
  [inst EXCEPT ![x][g].steps = Append(@, step), ![x][g].runner = IF @ = <<>> THEN who ELSE @]
Free(x, g, who) == inst[x][g].runner # who

\* the head step is over
Pop(ins, x, g) == [ins EXCEPT ![x][g].steps = Tail(@), ![x][g].runner = IF Len(ins[x][g].steps) = 1 THEN <<>> ELSE @]

AddStep(x, g) ==   \* the "connected"/"joined" callback, then it is over
  /\ inst[x][g].steps # <<>> /\ Head(inst[x][g].steps).k = "add"
  /\ log' = [log EXCEPT ![x] = Append(@, <<g, "up">>)]
  /\ inst' = Pop(inst, x, g)
  /\ UNCHANGED <<op, up, addp, down, xs, rd, ch, cur>>

\* the end that this side asked for (and the remote side agreed to)
EndA(x, g) ==
  /\ inst[x][g].steps # <<>> /\ Head(inst[x][g].steps).k = "enda"
  /\ LET s == Head(inst[x][g].steps) IN
     IF s.ph = 1
     THEN IF inst[x][g].ended
          THEN /\ inst' = Pop(inst, x, g) /\ UNCHANGED <<cur, down, xs>>
          ELSE /\ inst' = [inst EXCEPT ![x][g].ended = TRUE, ![x][g].steps[1].ph = 2]
               /\ cur' = [cur EXCEPT ![x] = 0]
               /\ down' = down \ {s.id} /\ xs' = xs \ {s.id}
     ELSE /\ inst' = Pop(inst, x, g) /\ UNCHANGED <<cur, down, xs>>
  /\ log' = IF Head(inst[x][g].steps).ph = 2 THEN [log EXCEPT ![x] = Append(@, <<g, "down">>)] ELSE log
  /\ UNCHANGED <<op, up, addp, rd, ch>>

\* the end that the remote side asked for
EndR(x, g) ==
  /\ inst[x][g].steps # <<>> /\ Head(inst[x][g].steps).k = "endr"
  /\ LET s == Head(inst[x][g].steps) IN
     CASE s.ph = 1 /\ inst[x][g].ended ->
            /\ ch' = Send(x, Rep(s.id, FALSE)) /\ inst' = Pop(inst, x, g) /\ UNCHANGED <<cur, log>>
       [] s.ph = 1 /\ x = "c" /\ ~Room ->   \* the client has no say: it answers and removes it, then the callback
            /\ inst' = [inst EXCEPT ![x][g].ended = TRUE, ![x][g].steps[1].ph = 2]
            /\ ch' = Send(x, Rep(s.id, FALSE)) /\ UNCHANGED <<cur, log>>
       [] s.ph = 1 /\ ~(x = "c" /\ ~Room) /\ ~inst[x][g].ended ->   \* the callback decides (on the client of a room it does not)
            \E veto \in BOOLEAN :
              IF veto /\ x = "s"
              THEN /\ ch' = Send(x, Rep(s.id, TRUE)) /\ inst' = Pop(inst, x, g) /\ UNCHANGED <<cur, log>>
              ELSE /\ inst' = [inst EXCEPT ![x][g].ended = TRUE, ![x][g].steps[1].ph = 2]
                   /\ ch' = IF x = "c" THEN Send(x, Rep(s.id, FALSE)) ELSE ch
                   /\ UNCHANGED <<cur, log>>
       [] s.ph = 2 ->
            /\ cur' = [cur EXCEPT ![x] = 0]
            /\ inst' = [inst EXCEPT ![x][g].steps[1].ph = 3] /\ UNCHANGED <<log, ch>>
       [] s.ph = 3 ->
            /\ ch' = IF x = "s" THEN Send(x, Rep(s.id, FALSE)) ELSE ch
            /\ log' = [log EXCEPT ![x] = Append(@, <<g, "down">>)]
            /\ inst' = Pop(inst, x, g) /\ UNCHANGED cur
  /\ UNCHANGED <<op, up, addp, down, xs, rd>>

-----------------------------------------------------------------------------
\* Connect, JoinRoom
U0(i) == LET x == Side(i) IN
  /\ Kind(i) = "up" /\ op[i].pc = "new"
  /\ IF cur[x] # 0 THEN op' = Finish(i, "ok") ELSE op' = Goto(i, "u1")
  /\ UNCHANGED <<up, addp, down, xs, rd, ch, cur, inst, log>>
U1(i) == LET x == Side(i) IN
  /\ op[i].pc = "u1" /\ Held(up, x) = {}
  /\ IF cur[x] # 0 THEN op' = Finish(i, "ok") /\ UNCHANGED <<up, addp>>
     ELSE op' = Goto(i, "u2") /\ up' = up \cup {i} /\ addp' = addp \cup {i}
  /\ UNCHANGED <<down, xs, rd, ch, cur, inst, log>>
U2(i) == LET x == Side(i) IN   \* the own callback, then the request
  /\ op[i].pc = "u2"
  /\ \/ op' = Finish(i, "veto") /\ up' = up \ {i} /\ addp' = addp \ {i} /\ UNCHANGED <<ch, xs>>
     \/ /\ (Off("one-request") \/ (Held(xs, x) = {} /\ ~Ending(x)))
        /\ op' = Goto(i, "u3") /\ ch' = Send(x, Req(i)) /\ xs' = xs \cup {i} /\ UNCHANGED <<up, addp>>
  /\ UNCHANGED <<down, rd, cur, inst, log>>
U3(i) == LET x == Side(i) g == Len(inst[x]) + 1 IN
  /\ op[i].pc = "u3" /\ op[i].ans # "no"
  /\ IF op[i].ans = "err"
     THEN op' = Finish(i, "refused") /\ up' = up \ {i} /\ addp' = addp \ {i} /\ UNCHANGED <<cur, inst>>
     ELSE IF cur[x] # 0
     THEN op' = Finish(i, "ok") /\ up' = up \ {i} /\ addp' = addp \ {i} /\ UNCHANGED <<cur, inst>>
     ELSE /\ op' = [op EXCEPT ![i].pc = "u4", ![i].gen = g]
          /\ cur' = [cur EXCEPT ![x] = g]
          /\ inst' = [inst EXCEPT ![x] = Append(@, [ended |-> FALSE, runner |-> <<"op", i>>, steps |-> <<[k |-> "add", id |-> i, ph |-> 1]>>])]
          /\ addp' = addp \ {i}
          /\ up' = IF Room THEN up \ {i} ELSE up
  /\ xs' = xs \ {i}
  /\ UNCHANGED <<down, rd, ch, log>>
U4(i) == LET x == Side(i) IN
  /\ op[i].pc = "u4" /\ Free(x, op[i].gen, <<"op", i>>)
  /\ op' = Finish(i, "ok") /\ up' = up \ {i}
  /\ UNCHANGED <<addp, down, xs, rd, ch, cur, inst, log>>

\* Disconnect, Leave
D0(i) == LET x == Side(i) IN
  /\ Kind(i) = "down" /\ op[i].pc = "new"
  /\ IF Alive(x) THEN op' = Goto(i, "d1") ELSE op' = Finish(i, "bad")
  /\ UNCHANGED <<up, addp, down, xs, rd, ch, cur, inst, log>>
D1(i) == LET x == Side(i) IN
  /\ op[i].pc = "d1" /\ Held(down, x) = {} /\ (Off("client-holds") \/ rd[x].pc # "r5")
  /\ (Off("one-request") \/ Held(xs, x) = {})
  /\ IF cur[x] = 0 THEN op' = Finish(i, "bad") /\ UNCHANGED <<down, xs, ch>>
     ELSE op' = [op EXCEPT ![i].pc = "d2", ![i].gen = cur[x]] /\ down' = down \cup {i} /\ xs' = xs \cup {i} /\ ch' = Send(x, Req(i))
  /\ UNCHANGED <<up, addp, rd, cur, inst, log>>
D2(i) == LET x == Side(i) IN
  /\ op[i].pc = "d2" /\ op[i].ans # "no"
  /\ IF op[i].ans = "err" THEN op' = Finish(i, "refused") /\ down' = down \ {i} /\ xs' = xs \ {i}
     ELSE op' = Goto(i, IF ~Off("add-waits") /\ Answered(up, x) THEN "d3" ELSE "d4") /\ UNCHANGED <<down, xs>>
  /\ UNCHANGED <<up, addp, rd, ch, cur, inst, log>>
D3(i) == LET x == Side(i) IN   \* a simultaneous up of this side, answered before, has to be added first
  /\ op[i].pc = "d3" /\ (IF Room THEN Held(up, x) = {} ELSE Held(addp, x) = {})
  /\ op' = Goto(i, "d4") /\ UNCHANGED <<up, addp, down, xs, rd, ch, cur, inst, log>>
D4(i) == LET x == Side(i) g == IF Off("end-current") THEN op[i].gen ELSE cur[x] IN   \* the current one may be another than the asked one
  /\ op[i].pc = "d4"
  /\ IF g = 0 THEN op' = Finish(i, "ok") /\ down' = down \ {i} /\ xs' = xs \ {i} /\ UNCHANGED inst
     ELSE /\ inst' = Do(x, g, [k |-> "enda", id |-> i, ph |-> 1], <<"op", i>>)
          /\ op' = [op EXCEPT ![i].pc = "d5", ![i].gen = g] /\ UNCHANGED <<down, xs>>
  /\ UNCHANGED <<up, addp, rd, ch, cur, log>>
D5(i) == LET x == Side(i) IN
  /\ op[i].pc = "d5" /\ Free(x, op[i].gen, <<"op", i>>)
  /\ op' = Finish(i, "ok") /\ down' = down \ {i} /\ xs' = xs \ {i}
  /\ UNCHANGED <<up, addp, rd, ch, cur, inst, log>>

-----------------------------------------------------------------------------
\* the reader of a side
Read(x) ==
  /\ rd[x].pc = "idle" /\ ch[x] # <<>>
  /\ LET m == Head(ch[x]) IN
     /\ ch' = [ch EXCEPT ![x] = Tail(@)]
     /\ IF m.t = "rep" THEN op' = [op EXCEPT ![m.id].ans = IF m.err THEN "err" ELSE "ok"] /\ UNCHANGED rd
        ELSE rd' = [rd EXCEPT ![x] = [pc |-> IF Kind(m.id) = "up" THEN "r1" ELSE "e1", msg |-> <<m.id>>, gen |-> 0]] /\ UNCHANGED op
  /\ UNCHANGED <<up, addp, down, xs, cur, inst, log>>
\* an answer is read ahead of the requests that wait for a busy reader
Ahead(x) ==
  /\ rd[x].pc # "idle"
  /\ \E j \in DOMAIN ch[x] :
       /\ ch[x][j].t = "rep" /\ \A k \in 1 .. (j - 1) : ch[x][k].t = "req"
       /\ op' = [op EXCEPT ![ch[x][j].id].ans = IF ch[x][j].err THEN "err" ELSE "ok"]
       /\ ch' = [ch EXCEPT ![x] = SubSeq(@, 1, j - 1) \o SubSeq(@, j + 1, Len(@))]
  /\ UNCHANGED <<up, addp, down, xs, rd, cur, inst, log>>

Idle(x) == [rd EXCEPT ![x] = [pc |-> "idle", msg |-> <<>>, gen |-> 0]]
\* a request to be up
R1(x) == /\ rd[x].pc = "r1" /\ WaitOK(down, x)
         /\ rd' = [rd EXCEPT ![x].pc = "r2"] /\ UNCHANGED <<op, up, addp, down, xs, ch, cur, inst, log>>
R2(x) == /\ rd[x].pc = "r2" /\ EndOK(x) /\ HoldOK(down, x)
         /\ IF cur[x] # 0
            THEN ch' = Send(x, Rep(rd[x].msg[1], FALSE)) /\ rd' = Idle(x)
            ELSE \/ rd' = [rd EXCEPT ![x].pc = "r3"] /\ UNCHANGED ch
                 \/ ch' = Send(x, Rep(rd[x].msg[1], TRUE)) /\ rd' = Idle(x)
         /\ UNCHANGED <<op, up, addp, down, xs, cur, inst, log>>
R3(x) == /\ rd[x].pc = "r3" /\ (Off("second-wait") \/ WaitOK(down, x))
         /\ rd' = [rd EXCEPT ![x].pc = "r4"] /\ UNCHANGED <<op, up, addp, down, xs, ch, cur, inst, log>>
Add(x) == LET g == Len(inst[x]) + 1 IN
  IF cur[x] # 0 THEN UNCHANGED <<cur, inst>> /\ rd' = Idle(x)
  ELSE /\ cur' = [cur EXCEPT ![x] = g]
       /\ inst' = [inst EXCEPT ![x] = Append(@, [ended |-> FALSE, runner |-> <<"rd", x>>, steps |-> <<[k |-> "add", id |-> 0, ph |-> 1]>>])]
       /\ rd' = [rd EXCEPT ![x].pc = "rw", ![x].gen = g]
R4(x) == /\ rd[x].pc = "r4" /\ (Off("second-wait") \/ (EndOK(x) /\ HoldOK(down, x)))
         /\ IF x = "c"
            THEN ch' = Send(x, Rep(rd[x].msg[1], FALSE)) /\ rd' = [rd EXCEPT ![x].pc = "r5"] /\ UNCHANGED <<cur, inst>>
            ELSE ch' = Send(x, Rep(rd[x].msg[1], FALSE)) /\ Add(x)   \* nothing can come between: the answer is only seen later
         /\ UNCHANGED <<op, up, addp, down, xs, log>>
R5(x) == /\ rd[x].pc = "r5" /\ Add(x) /\ UNCHANGED <<op, up, addp, down, xs, ch, log>>
\* a request to be down
E1(x) == /\ rd[x].pc = "e1" /\ WaitOK(up, x)
         /\ rd' = [rd EXCEPT ![x].pc = "e2"] /\ UNCHANGED <<op, up, addp, down, xs, ch, cur, inst, log>>
E2(x) == /\ rd[x].pc = "e2" /\ HoldOK(up, x)
         /\ IF cur[x] = 0
            THEN ch' = Send(x, Rep(rd[x].msg[1], FALSE)) /\ rd' = Idle(x) /\ UNCHANGED inst
            ELSE /\ inst' = Do(x, cur[x], [k |-> "endr", id |-> rd[x].msg[1], ph |-> 1], <<"rd", x>>)
                 /\ rd' = [rd EXCEPT ![x].pc = "rw", ![x].gen = cur[x]] /\ UNCHANGED ch
         /\ UNCHANGED <<op, up, addp, down, xs, cur, log>>
RW(x) == /\ rd[x].pc = "rw" /\ Free(x, rd[x].gen, <<"rd", x>>)
         /\ rd' = Idle(x) /\ UNCHANGED <<op, up, addp, down, xs, ch, cur, inst, log>>

Next == UNCHANGED calls /\
      ( \/ \E i \in Ids : U0(i) \/ U1(i) \/ U2(i) \/ U3(i) \/ U4(i) \/ D0(i) \/ D1(i) \/ D2(i) \/ D3(i) \/ D4(i) \/ D5(i)
        \/ \E x \in Sides : Read(x) \/ Ahead(x) \/ R1(x) \/ R2(x) \/ R3(x) \/ R4(x) \/ R5(x) \/ E1(x) \/ E2(x) \/ RW(x)
        \/ \E x \in Sides : \E g \in DOMAIN inst[x] : AddStep(x, g) \/ EndA(x, g) \/ EndR(x, g) )
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Quiet == ~ENABLED Next
AllDone == \A i \in Ids : op[i].pc = "done"
\* N12, N18: no call waits forever
NoDeadlock == Quiet => AllDone /\ \A x \in Sides : rd[x].pc = "idle" /\ ch[x] = <<>>
\* N05, N06, N07: once it is quiet both sides agree
Agreement == Quiet => (cur["c"] = 0) = (cur["s"] = 0)
\* N08: each membership is announced once and ended at most once, in that order, and all but the current one have ended
Count(x, g, w) == Cardinality({j \in DOMAIN log[x] : log[x][j] = <<g, w>>})
Callbacks == \A x \in Sides : \A g \in DOMAIN inst[x] :
  /\ Count(x, g, "up") <= 1 /\ Count(x, g, "down") <= 1
  /\ Count(x, g, "down") = 1 => Count(x, g, "up") = 1
  /\ Quiet => Count(x, g, "up") = 1 /\ (Count(x, g, "down") = 1) = (g # cur[x])
Ends == <>AllDone

-----------------------------------------------------------------------------
\* configurations
A == {<<x, k>> : x \in Sides, k \in {"up", "down"}}
CountOf(f, a) == Cardinality({i \in DOMAIN f : f[i] = a})
Rank(a) == (IF a[1] = "c" THEN 0 ELSE 1) + (IF a[2] = "up" THEN 0 ELSE 2)
Sorted(f) == \A i \in 1 .. (Len(f) - 1) : Rank(f[i]) <= Rank(f[i + 1])
Two == {f \in [1 .. 2 -> A] : Sorted(f)}
\* three calls at once: three of the twenty combinations can end in disagreement, see DESIGN.md (limits)
Three == {f \in [1 .. 3 -> A] : Sorted(f) /\ ~(CountOf(f, <<"c", "up">>) = 1 /\ CountOf(f, <<"s", "up">>) < 2 /\ CountOf(f, <<"c", "down">>) < 2 /\ CountOf(f, <<"s", "down">>) < 2)}
\* the library as it is; the other parts would be needed for more calls at once
AsIs == {"client-holds", "one-request", "end-current"}
=============================================================================
