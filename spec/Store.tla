------------------------------- MODULE Store -------------------------------
(* The per-connection storage: a map from keys to values whose operations  *)
(* are atomic. A recorded history is judged by keeping every state that    *)
(* some order of the operations in progress explains (linearizability).    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Nil == [t |-> "nil", n |-> 0]
Val(t, n) == [t |-> t, n |-> n]

\* what one operation does to the value of its key, and what it returns
After(v, o) ==
  CASE o.f = "set" -> o.arg
    [] o.f = "get" -> v
    [] o.f = "inc" -> Val("i", (IF v.t = "i" THEN v.n ELSE 0) + 1)
    [] o.f = "dec" -> Val("i", (IF v.t = "i" THEN v.n ELSE 0) - 1)
Result(v, o) == CASE o.f = "set" -> Nil
                  [] OTHER -> After(v, o)

\* an object is the set of its possible states: the value, the operations in progress, those of them that took effect
NewObj == {[v |-> Nil, ops |-> <<>>, done |-> <<>>]}

RECURSIVE Close(_)
Close(S) ==
  LET more == UNION {{[c EXCEPT !.v = After(c.v, c.ops[i]), !.done = @ @@ (i :> Result(c.v, c.ops[i]))]
                        : i \in DOMAIN c.ops \ DOMAIN c.done} : c \in S}
  IN IF more \subseteq S THEN S ELSE Close(S \cup more)

Without(f, i) == [j \in DOMAIN f \ {i} |-> f[j]]
ObjCall(S, i, o) == Close({[c EXCEPT !.ops = @ @@ (i :> o)] : c \in S})
ObjRet(S, i, res) == {[c EXCEPT !.ops = Without(@, i), !.done = Without(@, i)] : c \in {x \in S : i \in DOMAIN x.done /\ x.done[i] = res}}
=============================================================================
