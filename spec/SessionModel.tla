---------------------------- MODULE SessionModel ----------------------------
(***************************************************************************)
(* Session with a finite choice of geometries, contexts and clients:       *)
(* checked by TLC for all its reachable states (SessionModel.cfg), and     *)
(* simulated to get behaviours which are played into the library           *)
(* (Behaviours.cfg): `history` is the behaviour so far.                    *)
(*                                                                         *)
(* A query in flight makes progress (Work) without any visible effect; in  *)
(* the library it is a number of uses of the context, after which the call *)
(* is held until the next step of the behaviour.                           *)
(***************************************************************************)
EXTENDS Session, TLC, Json, IOUtils

(* name -> the geometries it may stand for, all of one kind *)
Pools == TLCEval(ndJsonDeserialize(IOEnv.POOLS))
Depth == IF "DEPTH" \in DOMAIN IOEnv THEN atoi(IOEnv.DEPTH) ELSE 0
RankOf(k) == IF k = "point" THEN 0 ELSE CHOOSE i \in DOMAIN Kinds : Kinds[i] = k
(* the model handles tokens of the geometries: the i-th one of a name, ..   *)
Token(p, n, i) == [k |-> Pools[p][n][1].k, d |-> <<n, i>>]
InPool(p, n) == {Token(p, n, i) : i \in DOMAIN Pools[p][n]}
Figures(p) == UNION {InPool(p, n) : n \in DOMAIN Pools[p]}
Real(p, t) == Pools[p][t.d[1]][t.d[2]]
Defined(x, y) == y.k # "point" /\ RankOf(x.k) <= RankOf(y.k)
(* .. and what Planar says about the geometries they stand for              *)
Table == TLCEval([p \in DOMAIN Pools |-> TLCEval(
            [q \in {q \in Figures(p) \X Figures(p) : Defined(q[1], q[2])} |->
               LET x == Real(p, q[1])
                   y == Real(p, q[2])
               IN IF x.k = "point" THEN Locate(x.d, y) ELSE Relate(x, y)])])
Known == TLCEval([p \in DOMAIN Pools |-> {g \in Figures(p) : Valid(Real(p, g))}])
Clients == {"a", "b", "c"}
Contexts == {"initial", "exact", "other"}

VARIABLES pool, history
modelVars == <<sessionVars, pool, history>>

Names == DOMAIN Pools[pool]
KindOf(n) == Pools[pool][n][1].k
Askable == {q \in Names \X Names :
              Defined(Token(pool, q[1], 1), Token(pool, q[2], 1))}
LookedUp(x, y) == Table[pool][<<x, y>>]
Checked(g) == g \in Known[pool]

Start(cs) ==
  /\ pool \in DOMAIN Pools
  /\ store = [n \in Names |-> Token(pool, n, 1)]
  /\ default = [c \in cs |-> "initial"]
  /\ pending = [c \in cs |-> <<>>]
  /\ memo = {}
  /\ history = <<>>

-----------------------------------------------------------------------------
(* all the states *)
Few == {"a", "b"}
Two == {"initial", "other"}
ModelInit == Start(Few)
ModelNext ==
  /\ \/ \E n \in Names : \E g \in InPool(pool, n) : Bind(n, g) \/ Edit(n, g)
     \/ \E c \in Few, k \in Two : SetDefault(c, k)
     \/ \E c \in Few, q \in Askable, k \in {Nobody} \cup Two : Invoke(c, q[1], q[2], k)
     \/ \E c \in Few, r \in 0..10, k \in Two : Return(c, r, {k}) \/ Return(c, r, {})
     \/ \E n \in Names, g \in Range(store) : Look(n, g)
  /\ UNCHANGED <<pool, history>>
Model == ModelInit /\ [][ModelNext]_modelVars

TypeOK ==
  /\ \A n \in Names : store[n] \in InPool(pool, n)
  /\ \A c \in Few : /\ default[c] \in Two
                    /\ Idle(c) \/ <<Call(c).x, Call(c).y>> \in Askable
                    /\ Idle(c) \/ Call(c).context \in Two
(* a query that is in flight has one answer, which nobody can change *)
AnswersAreStable ==
  [][\A c \in Few : ~Idle(c) /\ pending'[c] # <<>>
                      => /\ Answer(c)' = Answer(c)
                         /\ pending'[c] = pending[c]]_modelVars
(* some answer is always possible, and it is an admissible one *)
Answerable ==
  \A c \in Few : ~Idle(c) =>
    /\ Answer(c) \in Admissible(KindOf(Call(c).x), KindOf(Call(c).y))
    /\ ENABLED Return(c, Answer(c), {Call(c).context})
    /\ \A r \in 0..10 : ENABLED Return(c, r, {}) => r = Answer(c)
(* a query does not change what anybody may see: only Bind and Edit do, one *)
(* name at a time                                                           *)
QueriesArePure ==
  [][\E n \in Names : /\ \A m \in Names \ {n} : store'[m] = store[m]
                      /\ store'[n] # store[n] => ~InFlight(n) /\ pending' = pending
                                                 /\ default' = default]_modelVars

-----------------------------------------------------------------------------
(* behaviours *)
Note(e) == history' = Append(history, e)
One(set) == {RandomElement(set)}

BehaviourInit == Start(Clients)
BehaviourNext ==
  /\ Len(history) < Depth
  /\ UNCHANGED pool
  /\ \/ \E c \in Clients :
          \E q \in One(Askable), k \in One({Nobody} \cup Contexts), none \in One(BOOLEAN) :
            LET given == IF none THEN Nobody ELSE k
            IN /\ Invoke(c, q[1], q[2], given)
               /\ Note([e |-> "invoke", c |-> c, x |-> q[1], y |-> q[2], k |-> given])
     \/ \E c \in Clients : \E n \in One({1, 2, 3, 5, 8, 13, 21, 34, 55, 89}) :
          /\ ~Idle(c)
          /\ UNCHANGED sessionVars
          /\ Note([e |-> "work", c |-> c, n |-> n])
     \/ \E c \in Clients :
          /\ ~Idle(c)
          /\ Return(c, Answer(c), {})
          /\ Note([e |-> "return", c |-> c, r |-> Answer(c)])
     \/ \E n \in One(Names) : \E i \in One(DOMAIN Pools[pool][n]) :
          /\ Edit(n, Token(pool, n, i))
          /\ Note([e |-> "edit", n |-> n, i |-> i])
     \/ \E n \in One(Names) : \E i \in One(DOMAIN Pools[pool][n]), t \in One(1..3) :
          /\ t = 1
          /\ Bind(n, Token(pool, n, i))
          /\ Note([e |-> "bind", n |-> n, i |-> i])
     \/ \E c \in One(Clients) : \E k \in One(Contexts), t \in One(1..3) :
          /\ t = 1
          /\ SetDefault(c, k)
          /\ Note([e |-> "default", c |-> c, k |-> k])
Emit == /\ Len(history) = Depth
         /\ PrintT(ToJson([pool |-> pool, events |-> history]))
         /\ history' = Append(history, [e |-> "end"])
         /\ UNCHANGED <<sessionVars, pool>>
Behaviour == BehaviourInit /\ [][BehaviourNext \/ Emit]_modelVars
=============================================================================
