----------------------------- MODULE Conformance -----------------------------
(***************************************************************************)
(* Checks calls of the real library, recorded at its public API, against   *)
(* the specification.  Every line of the trace is one observation:         *)
(*                                                                         *)
(*  call   [x, y, r]           r[i] returned for <kind>_in_<kind>(x, y)     *)
(*  group  [calls]             calls[i] = <<x, y, r, flip>>: r returned for *)
(*                             two figures equal to those of calls[1]; flip:*)
(*                             they were passed the other way round         *)
(*  orbit  [x, y, r]           r[i] returned for the i-th affine image /    *)
(*                             number type / context of the same pair       *)
(*  total  [xk, yk, r]         r returned for some valid figures of these   *)
(*                             kinds                                        *)
(*  parts  [x, y, split, r, rs] rs[i][j] returned for the i-th part of x    *)
(*                             and the j-th part of y, r for x and y        *)
(*  boundary [x, y, bx, by, o, l, k, n]  returned for x and y, the boundary *)
(*                             of x and y, the boundary of y and x, both    *)
(*                             boundaries; -9 for what was not asked        *)
(*  facts  [g, p, rel, loc]    rel[i] = <<a, b, r>>: r returned for         *)
(*                             g[a], g[b]; loc[i] = <<q, a, r>>: r returned *)
(*                             for point p[q] and g[a]                      *)
(*                                                                         *)
(* Negative results stand for an exception, a timeout, a value of a wrong  *)
(* type.  Verdicts are total: a rejected observation is printed with the   *)
(* clause that failed, and the rest of the trace is still checked.         *)
(***************************************************************************)
EXTENDS Planar, Parts, Facts, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Stride == 256

VARIABLES l,       \* the line last consumed by this strand of the trace
          verdict
vars == <<l, verdict>>

Ok == <<"ok", 0, 0>>
Invalid(w) == <<"invalid input", w, 0>>

FirstBad(s, Bad(_)) ==
  LET bad == {i \in DOMAIN s : Bad(s[i])}
  IN IF bad = {} THEN 0 ELSE CHOOSE i \in bad : \A j \in bad : i <= j

-----------------------------------------------------------------------------
JudgeCall(c) ==
  IF ~Valid(c.x) THEN Invalid(1)
  ELSE IF ~Valid(c.y) THEN Invalid(2)
  ELSE LET e == Expected(c.x, c.y)
           i == FirstBad(c.r, LAMBDA r : r # e)
       IN IF i = 0 THEN Ok ELSE <<"expected result", e, i>>

SameFigure(a, b) == \/ a = b
                    \/ Shaped(a) = Shaped(b) /\ Relate(a, b) = EQUAL

JudgeGroup(c) ==
  LET first == c.calls[1]
      Straight(q) == IF q[4] THEN Complement(q[3]) ELSE q[3]
      X(q) == IF q[4] THEN q[2] ELSE q[1]
      Y(q) == IF q[4] THEN q[1] ELSE q[2]
      i == FirstBad(c.calls, LAMBDA q : ~(Valid(q[1]) /\ Valid(q[2])))
      j == FirstBad(c.calls, LAMBDA q : ~(/\ SameFigure(X(q), X(first))
                                         /\ SameFigure(Y(q), Y(first))))
      k == FirstBad(c.calls, LAMBDA q : Straight(q) # Straight(first))
      n == FirstBad(c.calls, LAMBDA q : q[3] < 0)
  IN IF i # 0 THEN Invalid(i)
     ELSE IF j # 0 THEN Invalid(1000 + j)
     ELSE IF n # 0 THEN <<"a result", 0, n>>
     ELSE IF k # 0 THEN <<"the result of the first call", Straight(first), k>>
     ELSE Ok

JudgeOrbit(c) ==
  IF ~Valid(c.x) THEN Invalid(1)
  ELSE IF ~Valid(c.y) THEN Invalid(2)
  ELSE LET i == FirstBad(c.r, LAMBDA r : r # c.r[1] \/ r < 0)
       IN IF i = 0 THEN Ok ELSE <<"the result of the first call", c.r[1], i>>

JudgeTotal(c) == IF c.r \in Admissible(c.xk, c.yk) THEN Ok
                 ELSE <<"an admissible result", 0, 0>>

-----------------------------------------------------------------------------
(* consistency of the answers about several figures and points *)
(* the answer about (a, b) in one of the directions it was asked in *)
Rel(c) == {<<c.rel[i][1], c.rel[i][2], c.rel[i][3]>> : i \in DOMAIN c.rel}
          \cup {<<c.rel[i][2], c.rel[i][1], Complement(c.rel[i][3])>> :
                i \in {i \in DOMAIN c.rel :
                       Shaped(c.g[c.rel[i][1]]) = Shaped(c.g[c.rel[i][2]])}}
Loc(c) == {<<c.loc[i][1], c.loc[i][2], c.loc[i][3]>> : i \in DOMAIN c.loc}

JudgeFacts(c) ==
  LET rel == Rel(c)
      loc == Loc(c)
      S(a) == Shaped(c.g[a])
      i == FirstBad(c.g, LAMBDA g : ~Valid(g))
      badPoint == {<<f, p>> \in rel \X (loc \X loc) :
                     /\ p[1][1] = p[2][1]
                     /\ p[1][2] = f[1] /\ p[2][2] = f[2]
                     /\ ~PointsAgree(S(f[1]), S(f[2]), f[3], p[1][3], p[2][3])}
      badTriple == {t \in rel \X rel \X rel :
                     /\ t[1][2] = t[2][1] /\ t[1][1] = t[3][1]
                     /\ t[2][2] = t[3][2]
                     /\ \/ LET allowed == Compose(t[1][3], t[2][3])
                           IN allowed # {} /\ t[3][3] \notin allowed
                        \/ /\ S(t[1][1]) /\ S(t[1][2]) /\ S(t[2][2])
                           /\ LET allowed == ShapedCompose(t[1][3], t[2][3])
                              IN allowed # {} /\ t[3][3] \notin allowed}
  IN IF i # 0 THEN Invalid(i)
     ELSE IF \E f \in rel \cup loc : f[3] < 0 THEN <<"a result", 0, 0>>
     ELSE IF badPoint # {}
     THEN LET b == CHOOSE b \in badPoint : TRUE
          IN <<"locations consistent with the relation", <<b[1], b[2]>>, 0>>
     ELSE IF badTriple # {}
     THEN <<"relations consistent with each other",
            CHOOSE b \in badTriple : TRUE, 0>>
     ELSE Ok

-----------------------------------------------------------------------------
(* parts and boundaries *)
JudgeParts(c) ==
  LET xs == SplitX(c.x, c.split)
      ys == SplitY(c.y, c.split)
      allowed == Combined(c.x.k, c.y.k, c.split, c.rs)
  IN IF ~Valid(c.x) THEN Invalid(1)
     ELSE IF ~Valid(c.y) THEN Invalid(2)
     ELSE IF ~(/\ c.split \in Splits(c.x.k, c.y.k)
               /\ DOMAIN c.rs = DOMAIN xs
               /\ \A i \in DOMAIN xs : DOMAIN c.rs[i] = DOMAIN ys) THEN Invalid(3)
     ELSE IF c.r < 0 \/ \E i \in DOMAIN c.rs : \E j \in DOMAIN c.rs[i] : c.rs[i][j] < 0
     THEN <<"a result", 0, 0>>
     ELSE IF c.r \notin allowed
     THEN <<"a result consistent with the parts", allowed, c.rs>>
     ELSE Ok

JudgeBoundary(c) ==
  LET asked == {r \in {c.o, c.l, c.k, c.n} : r # -9}
      fits ==
        IF c.x.k = "point" THEN (c.o = BOUNDARY) = (c.n = BOUNDARY)
        ELSE IF ~Shaped(c.x) THEN LinearByBoundary(c.o, c.n)
        ELSE BoundariesFit(c.l, c.k, c.n) /\ c.o \in ShapedByBoundaries(c.l, c.k, c.n)
  IN IF ~Valid(c.x) THEN Invalid(1)
     ELSE IF ~Valid(c.y) THEN Invalid(2)
     ELSE IF ~(/\ BoundaryOf(c.by, c.y)
               /\ Shaped(c.x) => BoundaryOf(c.bx, c.x)) THEN Invalid(3)
     ELSE IF \E r \in asked : r < 0 THEN <<"a result", 0, 0>>
     ELSE IF ~fits THEN <<"results consistent with those of the boundaries", c.o, <<c.l, c.k, c.n>>>>
     ELSE Ok

-----------------------------------------------------------------------------
Judge(c) == CASE c.t = "call" -> JudgeCall(c)
              [] c.t = "group" -> JudgeGroup(c)
              [] c.t = "orbit" -> JudgeOrbit(c)
              [] c.t = "total" -> JudgeTotal(c)
              [] c.t = "facts" -> JudgeFacts(c)
              [] c.t = "parts" -> JudgeParts(c)
              [] c.t = "boundary" -> JudgeBoundary(c)

Init == /\ l \in (1 - Stride)..0
        /\ verdict = Ok
Consume == /\ l + Stride <= Len(Cases)
           /\ l' = l + Stride
           /\ verdict' = Judge(Cases[l'])
           /\ verdict' # Ok => PrintT(ToString(<<"REJECTED", l', verdict'[1], verdict'[2], verdict'[3]>>))
Spec == Init /\ [][Consume]_vars
=============================================================================
