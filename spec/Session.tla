------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* Clients (threads) that hold geometries, edit them and query them.       *)
(*                                                                         *)
(* A query is two steps, Invoke and Return, so that queries of different   *)
(* clients overlap in every way; a client does not edit a geometry while a *)
(* query about it is in flight.  The answer is a function of what the      *)
(* arguments are now: nothing else is in the state the answer may depend   *)
(* on - no earlier query, no other client, no identity of an object.       *)
(*                                                                         *)
(* A client has a default context.  A query uses the context given to it,  *)
(* or the default one of its client at the time it is invoked.             *)
(*                                                                         *)
(* Ask is a query whose answer depends on the context (coordinates which   *)
(* the arithmetic of some contexts rounds): the specification does not say *)
(* what the answer is, only that it is a function of the context that has  *)
(* to be used and of the arguments.                                        *)
(***************************************************************************)
EXTENDS Planar

CONSTANT Nobody  \* no context given

VARIABLES store,    \* name -> the geometry it currently is
          default,  \* client -> its default context
          pending,  \* client -> its call in flight, << [x, y, context] >> or <<>>
          memo      \* << <<context, question>>, answer >> of the questions asked
sessionVars == <<store, default, pending, memo>>

Functional(f, k, v) == [a \in DOMAIN f \cup {k} |-> IF a = k THEN v ELSE f[a]]

Range(q) == {q[j] : j \in DOMAIN q}
Idle(c) == pending[c] = <<>>
Call(c) == pending[c][1]

InFlight(n) == \E c \in DOMAIN pending :
                 \E call \in Range(pending[c]) : n \in {call.x, call.y}

Geometry(g) == Valid(g)

(* a geometry comes into being, or a name is given to another one *)
Bind(n, g) ==
  /\ Geometry(g) /\ ~InFlight(n)
  /\ store' = Functional(store, n, g)
  /\ UNCHANGED <<default, pending, memo>>

(* a geometry is changed in place *)
Edit(n, g) ==
  /\ n \in DOMAIN store /\ g.k = store[n].k
  /\ Geometry(g) /\ ~InFlight(n)
  /\ store' = [store EXCEPT ![n] = g]
  /\ UNCHANGED <<default, pending, memo>>

SetDefault(c, k) ==
  /\ Idle(c)
  /\ default' = [default EXCEPT ![c] = k]
  /\ UNCHANGED <<store, pending, memo>>

Effective(c, k) == IF k = Nobody THEN default[c] ELSE k

Invoke(c, x, y, k) ==
  /\ Idle(c)
  /\ x \in DOMAIN store /\ y \in DOMAIN store
  /\ pending' = [pending EXCEPT ![c] = <<[x |-> x, y |-> y,
                                          context |-> Effective(c, k)]>>]
  /\ UNCHANGED <<store, default, memo>>

Answer(c) == Expected(store[Call(c).x], store[Call(c).y])

(* used: the contexts the query has been seen to use *)
Return(c, r, used) ==
  /\ ~Idle(c)
  /\ r = Answer(c)
  /\ used \subseteq {Call(c).context}
  /\ pending' = [pending EXCEPT ![c] = <<>>]
  /\ UNCHANGED <<store, default, memo>>

(* what an object is found to be, at any time *)
Look(n, g) ==
  /\ n \in DOMAIN store /\ g = store[n]
  /\ UNCHANGED sessionVars

Ask(c, q, k, r) ==
  LET key == <<Effective(c, k), q>>
  IN /\ r >= 0
     /\ \A m \in memo : m[1] = key => m[2] = r
     /\ memo' = memo \cup {<<key, r>>}
     /\ UNCHANGED <<store, default, pending>>
=============================================================================
