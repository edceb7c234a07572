------------------------------- MODULE Codec --------------------------------
(* The transport format. A payload is a sequence of pieces; ";" separates   *)
(* fields, Esc stands for a separator inside a name. TLC visits every case  *)
(* and prints the payload together with the message it has to be.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANT Wide \* BOOLEAN: more names
Esc == "@%!semicolon@%!"
VARIABLE c

Cat(s) == FoldLeft(LAMBDA a, b : a \o b, "", s)
Wire(name) == Cat([i \in 1 .. Len(name) |-> IF name[i] = ";" THEN Esc ELSE name[i]])   \* a name as it is sent
Plain(raw) == Cat([i \in 1 .. Len(raw) |-> IF raw[i] = Esc THEN ";" ELSE raw[i]])       \* a field as it is understood

Known == {"badns", "static", "dynq:1", "dynq:"}  \* texts of errors both sides registered ("badns" stands for ErrBadNamespace's)
ErrOf(t) == CASE t = "badns" -> "badns" [] t = "static" -> "static" [] t \in {"dynq:1", "dynq:"} -> "dyn" [] OTHER -> "text"

-----------------------------------------------------------------------------
\* what is sent
Names == {<<>>, <<"n">>, <<";">>, <<"a", ";", "b">>, <<";", ";">>} \cup (IF Wide THEN {<<"n", ";">>, <<"@%!">>, <<"0">>, <<" ">>} ELSE {})
Bodies == {<<>>, <<"b">>, <<";">>, <<";", "1", ";", ";", "x">>, <<Esc>>, <<"0">>, <<";", ";", ";", ";", ";", ";">>}
Errs == {"none", "static", "badns", "dynq:1", "some text", "Static", "static ", "DYNQ:1", "bad Namespace", ";e;", "", "reply", "reply;"}
Sends(z) == {[part |-> "send", ns |-> n, room |-> r, evt |-> e, body |-> b, err |-> x, native |-> FALSE, bin |-> t] :
            n \in {z}, r \in {<<>>, <<"r">>, <<";", "r">>}, e \in Names, b \in Bodies, x \in Errs, t \in BOOLEAN}
         \cup {[part |-> "send", ns |-> n, room |-> <<>>, evt |-> <<"e">>, body |-> b, err |-> "none", native |-> TRUE, bin |-> t] : n \in {z}, b \in Bodies, t \in BOOLEAN}
ErrText(x) == IF x = "badns" THEN "\\badns" ELSE x
SendWant(x) ==
  IF x.native THEN [frame |-> Cat(x.body), msg |-> [native |-> "only"]]
  ELSE LET iserr == x.err \notin {"none", "reply", "reply;"}
           body == IF iserr THEN ErrText(x.err) ELSE IF x.err = "none" THEN Cat(x.body) ELSE IF x.err = "reply" THEN "replied" ELSE ";replied;"
       IN [frame |-> Cat(<<";", Wire(x.ns), ";", Wire(x.room), ";", Wire(x.evt), ";", IF iserr THEN "1" ELSE "0", ";0;", body>>),
           msg |-> [ns |-> Cat(x.ns), room |-> Cat(x.room), evt |-> Cat(x.evt), body |-> IF iserr THEN "" ELSE body, err |-> IF iserr THEN ErrOf(x.err) ELSE "", errtext |-> IF iserr THEN ErrText(x.err) ELSE "",
                    native |-> FALSE, bin |-> x.bin, waits |-> <<FALSE, FALSE>>, exchange |-> FALSE, explicit |-> ""]]

-----------------------------------------------------------------------------
\* what is received
Waits == {"", "12", "$12", "$!12", "1!2", "#1", "!", "neffos(0x1)"}
RawNames == {<<>>, <<"n">>, <<"a", Esc, "b">>, <<Esc>>}
Events == {<<>>, <<"e">>, <<"x", Esc>>, <<"_OnNativeMessage">>}
Flags == {"0", "1", "", "01", "x"}
Tails == {<<>>, <<"b">>, <<";">>, <<"a", ";", "b", ";">>, <<Esc>>, <<"badns">>, <<"dynq:1">>}
Full(z) == {[part |-> "recv", fs |-> <<<<w>>, n, r, e, <<i>>, <<o>>, t>>, allow |-> FALSE, only |-> FALSE, bin |-> FALSE] :
           w \in {z}, n \in RawNames, r \in {<<>>, <<Esc, "r">>}, e \in Events, i \in Flags, o \in {"0", "1"}, t \in Tails}
        \cup {[part |-> "recv", fs |-> <<<<w>>, n, <<>>, e, <<i>>, <<"0">>, t>>, allow |-> a, only |-> y, bin |-> k] :
                w \in {z}, n \in RawNames, e \in Events, i \in {"0", "1"}, t \in Tails, a \in BOOLEAN, y \in BOOLEAN, k \in BOOLEAN}
Pieces == {"", "n", "1", Esc}
Short == {[part |-> "recv", fs |-> [i \in 1 .. Len(s) |-> <<s[i]>>], allow |-> a, only |-> y, bin |-> k] :
            s \in UNION {[1 .. m -> Pieces] : m \in 1 .. 4} \cup UNION {[1 .. m -> {"", "n"}] : m \in 5 .. 6}, a \in BOOLEAN, y \in BOOLEAN, k \in BOOLEAN}
Payload(fs) == Cat([i \in 1 .. (2 * Len(fs) - 1) |-> IF i % 2 = 0 THEN ";" ELSE Cat([j \in 1 .. Len(fs[(i + 1) \div 2]) |-> IF fs[(i + 1) \div 2][j] = "badns" THEN "\\badns" ELSE fs[(i + 1) \div 2][j]])])
Nothing(bin) == [ns |-> "", room |-> "", evt |-> "", body |-> "", err |-> "", errtext |-> "", native |-> FALSE, bin |-> bin, waits |-> <<FALSE, FALSE>>, exchange |-> FALSE, explicit |-> ""]
Native(p, x) == [Nothing(x.bin) EXCEPT !.evt = "_OnNativeMessage", !.body = p, !.native = x.allow]
RecvWant(x) ==
  LET p == Payload(x.fs)
      w == x.fs[1][1]
      iserr == x.fs[5] = <<"1">>
      text == Payload(<<x.fs[7]>>)
      explicit == w = "neffos(0x1)"
  IN IF p = "" THEN Nothing(x.bin)
     ELSE IF x.only THEN Native(p, x)
     ELSE IF Len(x.fs) < 7 THEN IF x.allow THEN Native(p, x) ELSE Nothing(x.bin)
     ELSE [ns |-> Plain(x.fs[2]), room |-> Plain(x.fs[3]), evt |-> Plain(x.fs[4]), body |-> IF iserr THEN "" ELSE text,
           err |-> IF iserr THEN (IF x.fs[7] = <<"badns">> THEN "badns" ELSE IF x.fs[7] = <<"dynq:1">> THEN "dyn" ELSE "text") ELSE "", errtext |-> IF iserr THEN text ELSE "",
           native |-> x.allow /\ x.fs[4] = <<"_OnNativeMessage">>, bin |-> x.bin,
           \* a request by a client is answered by the server with the same token
           waits |-> IF w = "" \/ explicit THEN <<FALSE, FALSE>> ELSE IF w \in {"$12", "$!12"} THEN <<TRUE, FALSE>> ELSE <<TRUE, TRUE>>,
           exchange |-> w \in {"$!12", "1!2"}, explicit |-> IF explicit THEN w ELSE ""]

-----------------------------------------------------------------------------
\* bytes: each field carries any bytes, alone or next to the separator, and arrives as it was
Semi == 59
EscBytes == <<64, 37, 33, 115, 101, 109, 105, 99, 111, 108, 111, 110, 64, 37, 33>>
Odd == {0, 10, 32, 48, 49, Semi, 64, 255}
ByteSeqs == {<<x>> : x \in 0 .. 255} \cup UNION {[1 .. n -> Odd] : n \in {2, 3}}
Fields == {"ns", "room", "evt", "body", "err", "reply"}
EscWire(b) == FoldLeft(LAMBDA a, x : a \o (IF x = Semi THEN EscBytes ELSE <<x>>), <<>>, b)
ByteWant(f, b) == <<Semi>> \o (IF f = "ns" THEN EscWire(b) ELSE <<>>) \o <<Semi>> \o (IF f = "room" THEN EscWire(b) ELSE <<>>) \o <<Semi>> \o (IF f = "evt" THEN EscWire(b) ELSE <<>>)
                  \o <<Semi, IF f = "err" THEN 49 ELSE 48, Semi, 48, Semi>> \o (IF f \in {"body", "err", "reply"} THEN b ELSE <<>>)

-----------------------------------------------------------------------------
\* values as bodies
Objects == {[part |-> "object", v |-> v] : v \in {"custom", "customerr", "struct", "string", "bad", "bytes", "number"}}
ObjWant(x) == CASE x.v = "custom" -> [body |-> "<custom>", back |-> "custom"] [] x.v = "customerr" -> [body |-> "cannot", back |-> "error"]
                [] x.v = "struct" -> [body |-> "{\"A\":1,\"B\":\";\"}", back |-> "same"] [] x.v = "string" -> [body |-> "\"s\"", back |-> "same"]
                [] x.v = "bad" -> [body |-> "json: unsupported type: chan int", back |-> "error"] [] x.v = "bytes" -> [body |-> "\"AAE=\"", back |-> "same"] [] OTHER -> [body |-> "7", back |-> "same"]

Init == c \in {[part |-> "sends", z |-> n] : n \in Names} \cup {[part |-> "recvs", z |-> <<w>>] : w \in Waits} \cup {[part |-> "rest"]} \cup {[part |-> "bytess", f |-> f] : f \in Fields}
Next == c' \in (CASE c.part = "sends" -> Sends(c.z) [] c.part = "recvs" -> Full(c.z[1]) [] c.part = "bytess" -> {[part |-> "bytes", f |-> c.f, b |-> b] : b \in ByteSeqs} [] c.part = "rest" -> Short \cup Objects [] OTHER -> {})
Spec == Init /\ [][Next]_c
Case == CASE c.part = "send" -> [part |-> "send", in |-> [ns |-> Cat(c.ns), room |-> Cat(c.room), evt |-> Cat(c.evt), body |-> Cat(c.body), err |-> c.err, native |-> c.native, bin |-> c.bin], want |-> SendWant(c)]
          [] c.part = "recv" -> [part |-> "recv", in |-> [payload |-> Payload(c.fs), allow |-> c.allow, only |-> c.only, bin |-> c.bin], want |-> RecvWant(c)]
          [] c.part = "bytes" -> [part |-> "bytes", in |-> [f |-> c.f, b |-> c.b], want |-> [frame |-> ByteWant(c.f, c.b), back |-> c.b]]
          [] OTHER -> [part |-> "object", in |-> [v |-> c.v], want |-> ObjWant(c)]
Emit == c.part \in {"bytes", "send", "recv", "object"} => PrintT("CASE " \o ToJson(Case))
=============================================================================
