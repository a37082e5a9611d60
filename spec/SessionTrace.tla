---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Trace specification of Session: every line of the trace is one recorded *)
(* session, a sequence of events of its clients.  Every event has to be a  *)
(* step of Session.  A session is left at the first event that is not, and *)
(* the event is printed.                                                   *)
(***************************************************************************)
EXTENDS Session, TLC, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.CASES)

VARIABLES s,  \* the session
          i   \* events of it consumed
vars == <<s, i, sessionVars>>

Events == Sessions[s].ev
Clients == {"main", "a", "b", "c"}

Init == /\ s \in 1..Len(Sessions)
        /\ i = 0
        /\ store = <<>>
        /\ default = [c \in Clients |-> "initial"]
        /\ pending = [c \in Clients |-> <<>>]
        /\ memo = {}

Step(e) ==
  CASE e.e = "bind" -> Bind(e.n, e.g)
    [] e.e = "edit" -> Edit(e.n, e.g)
    [] e.e = "default" -> SetDefault(e.c, e.k)
    [] e.e = "invoke" -> Invoke(e.c, e.x, e.y, e.k)
    [] e.e = "return" -> Return(e.c, e.r, Range(e.u))
    [] e.e = "look" -> Look(e.n, e.g)
    [] e.e = "ask" -> Ask(e.c, e.q, e.k, e.r)

(* why an event is not a step *)
Clause(e) ==
  CASE e.e \in {"bind", "edit"} -> <<"invalid input", e.n, 0>>
    [] e.e = "return" ->
         IF Idle(e.c) THEN <<"invalid input", e.c, 0>>
         ELSE IF e.r # Answer(e.c)
         THEN <<"expected result", Answer(e.c), e.r>>
         ELSE <<"only the context", Call(e.c).context, e.u>>
    [] e.e = "look" -> <<"the argument unchanged", e.n, 0>>
    [] e.e = "ask" -> <<"the answer of the context", Effective(e.c, e.k), e.r>>
    [] OTHER -> <<"invalid input", e.e, 0>>

Next ==
  /\ i < Len(Events)
  /\ LET e == Events[i + 1]
     IN \/ /\ Step(e)
           /\ i' = i + 1
           /\ s' = s
        \/ /\ ~ENABLED Step(e)
           /\ PrintT(ToString(<<"REJECTED", s, Clause(e)[1], i + 1, Clause(e)[2], Clause(e)[3]>>))
           /\ i' = Len(Events) + 1
           /\ UNCHANGED <<s, sessionVars>>
Spec == Init /\ [][Next]_vars
=============================================================================
