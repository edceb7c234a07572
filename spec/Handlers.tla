------------------------------ MODULE Handlers ------------------------------
(* What declarations mean: how handlers combine, which methods of a struct  *)
(* become events, and how the instances of a dynamic struct live. TLC       *)
(* visits every case below and prints it with what has to be observed.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANT MaxLen \* of the histories of struct instances

VARIABLES c, hist, inst, out
vars == <<c, hist, inst, out>>

-----------------------------------------------------------------------------
\* Combining handlers: the later declaration of an event wins, nothing else is lost.
Pairs == {<<"", "e">>, <<"", "f">>, <<"a", "e">>, <<"a", "f">>}
Root == {p \in Pairs : p[1] = ""}
\* kind, declared callbacks, namespaces declared without any event
H(k, d, x) == [kind |-> k, decl |-> d, extra |-> x]
Handlers == {H("ns", d, {}) : d \in SUBSET Pairs} \cup {H("ns", {}, {"a"}), H("ns", {<<"", "e">>}, {"a"}), H("ns", {<<"a", "f">>}, {""})}
            \cup {H("ev", d, {""}) : d \in SUBSET Root}
            \cup {H("wt", d, {}) : d \in SUBSET Pairs}
            \cup {H("st", d, {"a"}) : d \in SUBSET (Pairs \ Root)} \cup {H("st", d, {""}) : d \in (SUBSET Root) \ {{}}}
            \cup {H("wt2", d, {}) : d \in (SUBSET Root)}  \* the same events in both of WithTimeout's fields
Few == {h \in Handlers : Cardinality(h.decl) \in {1, 3} /\ h.kind \in {"ns", "st"}} \cup {H("ev", {<<"", "f">>}, {""}), H("wt", {<<"", "e">>, <<"a", "f">>}, {})}
Lists == {<<>>} \cup {<<h>> : h \in Handlers} \cup (Handlers \X Handlers) \cup (Few \X Few \X Few)

Spaces(l) == UNION {{p[1] : p \in l[i].decl} \cup l[i].extra : i \in 1 .. Len(l)}
Winner(l, p) == Max({i \in 1 .. Len(l) : p \in l[i].decl})
Order == <<<<"", "e">>, <<"", "f">>, <<"a", "e">>, <<"a", "f">>>>
\* The two event names: names of the application's own, or ones with a meaning of their own; no difference for combining.
Names == {<<"e", "f">>, <<"_OnNamespaceConnect", "_OnAnyEvent">>, <<"_OnRoomJoined", "_OnNamespaceDisconnect">>, <<"_OnNativeMessage", "">>}
Named(nm, e) == IF e = "e" THEN nm[1] ELSE nm[2]
JoinWant(l, nm) ==
  LET ps == SelectSeq(Order, LAMBDA p : \E i \in 1 .. Len(l) : p \in l[i].decl)
  IN [nss |-> SelectSeq(<<"", "a">>, LAMBDA n : n \in Spaces(l)),
      events |-> [i \in 1 .. Len(ps) |-> [ns |-> ps[i][1], evt |-> Named(nm, ps[i][2]), by |-> Winner(l, ps[i]), field |-> IF l[Winner(l, ps[i])].kind = "wt2" THEN "events" ELSE ""]],
      inputs |-> "same", again |-> "same"]
JoinIn(l, nm) == [i \in 1 .. Len(l) |-> [kind |-> l[i].kind, names |-> nm, decl |-> LET d == SetToSeq(l[i].decl) IN [j \in 1 .. Len(d) |-> <<d[j][1], Named(nm, d[j][2])>>], extra |-> SetToSeq(l[i].extra)]]

-----------------------------------------------------------------------------
\* Struct handlers: name, signature (with the connection, message only, something else), name without the prefix "On"
M(n, s, t) == [name |-> n, sig |-> s, trim |-> t]
System == {"OnNamespaceConnect", "OnNamespaceConnected", "OnNamespaceDisconnect", "OnRoomJoin", "OnRoomJoined", "OnRoomLeave", "OnRoomLeft"}
Static == {M("Chat", "conn", ""), M("Dyn", "msg", ""), M("Helper", "other", ""), M("NoErr", "other", ""), M("OnChat", "conn", "Chat"), M("OnZ", "conn", "Z"), M("OnNamespaceConnect", "conn", "x"),
           M("OnNamespaceConnected", "conn", "x"), M("OnNamespaceDisconnect", "conn", "x"), M("OnOther", "msg", "Other"), M("OnRoomJoin", "conn", "x"), M("OnRoomJoined", "conn", "x"),
           M("OnRoomLeave", "conn", "x"), M("OnRoomLeft", "conn", "x"), M("Swapped", "other", ""), M("Two", "other", ""), M("Value", "conn", "")}
Dynamic == {M("Chat", "msg", ""), M("Helper", "other", ""), M("OnChat", "msg", "Chat"), M("OnZ", "msg", "Z"), M("OnNamespaceConnected", "msg", "x"), M("OnNamespaceDisconnect", "msg", "x"),
            M("OnRoomLeft", "msg", "x"), M("Stat", "conn", ""), M("Value", "msg", "")}
Shapes == [static |-> [dyn |-> FALSE, ms |-> Static, nsm |-> "", nsf |-> ""],
           dynamic |-> [dyn |-> TRUE, ms |-> Dynamic, nsm |-> "", nsf |-> ""],
           dynconnect |-> [dyn |-> TRUE, ms |-> {M("Chat", "msg", ""), M("OnNamespaceConnect", "msg", "x")}, nsm |-> "", nsf |-> ""],
           method |-> [dyn |-> FALSE, ms |-> {M("Chat", "conn", ""), M("Namespace", "other", "")}, nsm |-> "bymethod", nsf |-> ""],
           field |-> [dyn |-> TRUE, ms |-> {M("Chat", "msg", ""), M("OnChat", "msg", "Chat")}, nsm |-> "", nsf |-> "byfield"],
           both |-> [dyn |-> TRUE, ms |-> {M("Chat", "msg", ""), M("Namespace", "other", "")}, nsm |-> "bymethod", nsf |-> ""],
           badmethod |-> [dyn |-> FALSE, ms |-> {M("Chat", "conn", ""), M("Namespace", "other", "")}, nsm |-> "", nsf |-> ""]]
Matchers == {"none", "prefix", "trim", "reject", "rename"}
EventOf(m, how) == IF m.name \in System THEN "_" \o m.name
                   ELSE CASE how = "none" -> m.name [] how = "prefix" -> (IF m.trim # "" THEN m.name ELSE "") [] how = "trim" -> m.trim [] how = "rename" -> "to/" \o m.name [] OTHER -> ""
StructWant(s, how, set) ==
  LET sh == Shapes[s]
      el == {m \in sh.ms : m.sig = (IF sh.dyn THEN "msg" ELSE "conn") /\ EventOf(m, how) # ""}
      evs == {<<EventOf(m, how), m.name>> : m \in el} \cup (IF sh.dyn /\ ~(\E m \in el : m.name = "OnNamespaceConnect") THEN {<<"_OnNamespaceConnect", "">>} ELSE {})
  IN [ns |-> IF set # "" THEN set ELSE IF sh.nsm # "" THEN sh.nsm ELSE sh.nsf,
      events |-> SetToSortSeq({[evt |-> x[1], method |-> x[2], conn |-> "its own"] : x \in evs}, LAMBDA a, b : TRUE)]

-----------------------------------------------------------------------------
\* Timeouts reach every read and write of the connection.
TimeCases == {[kind |-> k, side |-> s, rt |-> r, wt |-> w] : k \in {"wt", "struct", "plain"}, s \in {"s", "c"}, r \in {0, 5}, w \in {0, 7}}
TimeWant(x) == [rt |-> IF x.kind = "plain" THEN 0 ELSE x.rt, wt |-> IF x.kind = "plain" THEN 0 ELSE x.wt]

-----------------------------------------------------------------------------
\* Instances of one dynamic struct, declared in two namespaces and used by two connections.
Slots == {<<k, ns>> : k \in 1 .. 2, ns \in {"a", "b"}}
LiveCases == {[side |-> s, inj |-> i] : s \in {"s", "c"}, i \in BOOLEAN}
Fresh(x) == [n |-> 0, note |-> "", tag |-> IF x.inj THEN "injected" ELSE "static", shared |-> ~x.inj]
\* every instance starts as configured and sees its own changes only; Conn, Namespace: whom it serves
Say(s) == [conn |-> s[1], ns |-> s[2], n |-> inst[s].n, note |-> inst[s].note, tag |-> inst[s].tag, shared |-> inst[s].shared]
Con(s) == /\ s \notin DOMAIN inst
          /\ inst' = [t \in DOMAIN inst \cup {s} |-> IF t = s THEN Fresh(c) ELSE inst[t]]
          /\ hist' = Append(hist, <<"con", s[1], s[2]>>) /\ out' = Append(out, "ok")
Dis(s) == /\ s \in DOMAIN inst
          /\ inst' = [t \in DOMAIN inst \ {s} |-> inst[t]]
          /\ hist' = Append(hist, <<"dis", s[1], s[2]>>) /\ out' = Append(out, "ok")
Bump(s) == /\ s \in DOMAIN inst
           /\ inst' = [inst EXCEPT ![s].n = @ + 1, ![s].note = @ \o "x", ![s].tag = @ \o "!"]
           /\ hist' = Append(hist, <<"bump", s[1], s[2]>>) /\ out' = Append(out, Say(s))
\* Many connections at once: still one instance each, its own.
ManyCases == {[part |-> "many", inj |-> i, n |-> n, m |-> m] : i \in BOOLEAN, n \in {2, 8, 32}, m \in 1 .. 60}
-----------------------------------------------------------------------------
Init == /\ c \in {[part |-> "join", l |-> l, nm |-> <<"e", "f">>] : l \in Lists} \cup {[part |-> "join", l |-> l, nm |-> n] : l \in Handlers \X Handlers, n \in Names} \cup ManyCases \cup {[part |-> "struct", shape |-> s, how |-> h, set |-> n] : s \in DOMAIN Shapes, h \in Matchers, n \in {"", "set"}}
               \cup {[part |-> "timeouts", x |-> x] : x \in TimeCases} \cup {[part |-> "live", side |-> x.side, inj |-> x.inj] : x \in LiveCases}
        /\ hist = <<>> /\ out = <<>> /\ inst = <<>>
Next == /\ c.part = "live" /\ Len(hist) < MaxLen
        /\ \E s \in Slots : Con(s) \/ Dis(s) \/ Bump(s)
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Wanted == CASE c.part = "join" -> [part |-> "join", in |-> JoinIn(c.l, c.nm), want |-> JoinWant(c.l, c.nm)]
            [] c.part = "struct" -> [part |-> "struct", in |-> [shape |-> c.shape, how |-> c.how, set |-> c.set], want |-> StructWant(c.shape, c.how, c.set)]
            [] c.part = "timeouts" -> [part |-> "timeouts", in |-> c.x, want |-> TimeWant(c.x)]
            [] c.part = "many" -> [part |-> "many", in |-> [inj |-> c.inj, n |-> c.n], want |-> [own |-> c.n]]
            [] OTHER -> [part |-> "live", in |-> [side |-> c.side, inj |-> c.inj, ops |-> hist], want |-> [out |-> out, template |-> "same"]]
Emit == (c.part # "live" \/ Len(hist) = MaxLen) => PrintT("CASE " \o ToJson(Wanted))
=============================================================================
