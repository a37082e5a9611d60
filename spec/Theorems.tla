------------------------------ MODULE Theorems ------------------------------
(***************************************************************************)
(* Theorems about Planar, checked by TLC for all the pairs (triples) of    *)
(* slices of the universes of small figures.  They are what the checks of  *)
(* the properties C08-C11 and C13-C16 hold the library to, on figures of   *)
(* any size: a theorem that failed here would make those checks wrong.     *)
(***************************************************************************)
EXTENDS Vectors, Parts, Facts

Goal == IOEnv.GOAL

SameShape(x, y) == Shaped(x) = Shaped(y)
Point(p) == [k |-> "point", d |-> p]

(* C13 *)
AnswersAreAdmissible(x, y) == Expected(x, y) \in Admissible(x.k, y.k)

(* C08 *)
ConverseIsComplement(x, y) ==
  /\ Relate(x, x) = EQUAL
  /\ SameShape(x, y) => Relate(y, x) = Complement(Relate(x, y))

(* C09: other ways to write a figure down *)
Turn(v) == [i \in DOMAIN v |-> v[NextIndex(i, Len(v))]]
Flip(v) == [i \in DOMAIN v |-> v[Len(v) + 1 - i]]
(* a vertex in the middle of the first edge; coordinates are even *)
Knot(v) == <<v[1], <<(v[1][1] + v[2][1]) \div 2, (v[1][2] + v[2][2]) \div 2>>>>
           \o Tail(v)
Respelled(g) ==
  LET Ring(v) == Knot(Turn(Flip(v)))
      Rings(d) == [i \in DOMAIN d |-> Ring(d[i])]
      Cut(s) == <<<<s[1], Knot(s)[2]>>, <<Knot(s)[2], s[2]>>>>
  IN [k |-> g.k,
      d |-> CASE g.k = "segment" -> Flip(g.d)
              [] g.k = "multisegment" -> Cut(g.d[1]) \o [i \in 1..(Len(g.d) - 1) |-> Flip(g.d[i + 1])]
              [] g.k \in {"contour", "region"} -> Ring(g.d)
              [] g.k = "multiregion" -> Flip(Rings(g.d))
              [] g.k = "polygon" -> <<Ring(g.d[1])>> \o Flip(Rings(Tail(g.d)))
              [] g.k = "multipolygon" -> Flip([i \in DOMAIN g.d |-> Rings(g.d[i])])]
SpellingIsIrrelevant(x, y) ==
  LET a == Finer(x)
      b == Finer(y)
      c == Respelled(a)
      d == Respelled(b)
  IN /\ Valid(c)
     /\ Relate(c, d) = Relate(x, y)
     /\ Relate(c, b) = Relate(x, y)
     /\ Relate(c, a) = EQUAL

(* C10 *)
Repackaged(g) ==
  LET Is(k, d) == [k |-> k, d |-> d]
  IN CASE g.k = "segment" -> {Is("multisegment", <<g.d>>)}
       [] g.k = "multisegment" -> {}
       [] g.k = "contour" -> {Is("multisegment", [i \in DOMAIN g.d |-> PartsOf(g)[i].d])}
       [] g.k = "region" -> {Is("multiregion", <<g.d>>), Is("polygon", <<g.d>>),
                             Is("multipolygon", <<<<g.d>>>>)}
       [] g.k = "multiregion" -> {Is("multipolygon", [i \in DOMAIN g.d |-> <<g.d[i]>>])}
       [] g.k = "polygon" -> {Is("multipolygon", <<g.d>>)}
       [] g.k = "multipolygon" -> {}
PackagingIsIrrelevant(x, y) ==
  \A a \in {x} \cup Repackaged(x) : \A b \in {y} \cup Repackaged(y) :
    Valid(a) /\ Relate(a, b) = Relate(x, y)

(* C11 *)
Maps == {<<0, 1, 1, 0, 3, -2>>, <<-1, 0, 0, 1, 0, 0>>, <<2, 1, 1, 1, -4, 5>>,
         <<5, 3, 2, -1, 0, 7>>}
By(m, g) == Image(g, LAMBDA p : <<m[1] * p[1] + m[2] * p[2] + m[5],
                                  m[3] * p[1] + m[4] * p[2] + m[6]>>)
AffineMapsKeepRelations(x, y) ==
  \A m \in Maps : Expected(By(m, x), By(m, y)) = Expected(x, y)

(* C14, points *)
Near(x, y) ==  \* points of a grid twice as fine around
  {<<a, b>> : a \in (-1)..9, b \in (-1)..9}
RelationsAgreeWithLocations(x, y) ==
  LET r == Relate(x, y)
      a == Finer(x)
      b == Finer(y)
  IN \A p \in Near(x, y) :
       PointsAgree(Shaped(x), Shaped(y), r, Locate(p, a), Locate(p, b))

(* C14, triples: x, y and every third figure of y's slice *)
RelationsCompose(x, y, zs) ==
  \A i \in DOMAIN zs :
    LET z == zs[i]
        TriplesFit(a, b, c) ==
          LET allowed == Compose(Relate(a, b), Relate(b, c))
              shaped == ShapedCompose(Relate(a, b), Relate(b, c))
          IN /\ allowed # {} => Relate(a, c) \in allowed
             /\ shaped # {} /\ Shaped(a) /\ Shaped(b) /\ Shaped(c)
                => Relate(a, c) \in shaped
        Defined(a, b) == ~(Shaped(a) /\ ~Shaped(b))
    IN \A t \in {<<x, y, z>>, <<y, z, x>>, <<z, y, x>>, <<y, x, z>>} :
         Defined(t[1], t[2]) /\ Defined(t[2], t[3]) /\ Defined(t[1], t[3])
           => TriplesFit(t[1], t[2], t[3])

(* C15 *)
PartsDecide(x, y) ==
  \A split \in Splits(x.k, y.k) :
    LET xs == SplitX(x, split)
        ys == SplitY(y, split)
    IN Expected(x, y) \in
         Combined(x.k, y.k, split,
                  [i \in DOMAIN xs |-> [j \in DOMAIN ys |-> Expected(xs[i], ys[j])]])

(* C16 *)
Bound(g) ==
  [k |-> "multisegment", d |-> SetToSeq(Edges(g))]
BoundariesDecide(x, y) ==
  IF x.k = "point"
  THEN Shaped(y) => (Locate(x.d, y) = BOUNDARY) = (Locate(x.d, Bound(y)) = BOUNDARY)
  ELSE IF ~Shaped(y) THEN TRUE
  ELSE IF ~Shaped(x)
  THEN LinearByBoundary(Relate(x, y), Relate(x, Bound(y)))
  ELSE LET l == Relate(Bound(x), y)
           k == Relate(Bound(y), x)
           n == Relate(Bound(x), Bound(y))
       IN /\ BoundariesFit(l, k, n)
          /\ Relate(x, y) \in ShapedByBoundaries(l, k, n)

Holds(x, y, zs) ==
  CASE Goal = "C08" -> ConverseIsComplement(x, y)
    [] Goal = "C09" -> SpellingIsIrrelevant(x, y)
    [] Goal = "C10" -> PackagingIsIrrelevant(x, y)
    [] Goal = "C11" -> AffineMapsKeepRelations(x, y)
    [] Goal = "C13" -> AnswersAreAdmissible(x, y)
    [] Goal = "C14" -> RelationsAgreeWithLocations(x, y) /\ RelationsCompose(x, y, zs)
    [] Goal = "C15" -> PartsDecide(x, y)
    [] Goal = "C16" -> BoundariesDecide(x, y)

(* every row of the jobs is a state; the first pair that fails is printed *)
Prove == LET xs == TLCGet(2)[job]
             ys == TLCGet(3)[job]
             Bad == {i \in DOMAIN ys : ~Holds(xs[row'], ys[i], ys)}
         IN /\ row + Lanes <= Len(xs)
            /\ row' = row + Lanes
            /\ job' = job
            /\ \/ Bad = {}
               \/ LET i == CHOOSE i \in Bad : TRUE
                  IN PrintT(ToString(<<"FAILS", Goal, xs[row'], ys[i], Expected(xs[row'], ys[i])>>))
Theory == Init /\ [][Prove]_vars
=============================================================================
