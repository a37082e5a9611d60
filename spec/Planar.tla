------------------------------- MODULE Planar -------------------------------
(***************************************************************************)
(* Declarative specification of the 35 relations of orient.planar.         *)
(*                                                                         *)
(* A geometry is a record [k |-> kind, d |-> data]:                        *)
(*   point         d = <<x, y>>                                            *)
(*   segment       d = <<p, q>>                                            *)
(*   multisegment  d = << <<p, q>>, ... >>                                 *)
(*   contour       d = <<v1, ..., vn>>                                     *)
(*   region        d = <<v1, ..., vn>>                                     *)
(*   multiregion   d = << <<v1, ..., vn>>, ... >>                          *)
(*   polygon       d = <<border, hole1, ..., holek>>                       *)
(*   multipolygon  d = << <<border, hole1, ...>>, ... >>                   *)
(* with integer coordinates; vertices of a ring come in either direction.  *)
(*                                                                         *)
(* The meaning of a relation is given by *germs*: the boundary of X is cut *)
(* at every point where it meets the boundary of Y, and each piece lies    *)
(* wholly IN the interior of Y, OUTside of Y, or on an edge of Y (SAME:    *)
(* interiors on the same side, OPP: on different sides).  The piece's      *)
(* location is read off at its start: from the cyclic order of the rays of *)
(* Y there or, when the piece starts off the boundary of Y, by parity.     *)
(* All the predicates are exact on integers; with all coordinate           *)
(* differences up to 150 every intermediate fits 32 bits (4 * 150^4).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Kinds == <<"segment", "multisegment", "contour", "region", "multiregion",
           "polygon", "multipolygon">>
ShapedKinds == {"region", "multiregion", "polygon", "multipolygon"}
LinearKinds == {"segment", "multisegment", "contour"}

Relations == <<"DISJOINT", "TOUCH", "CROSS", "OVERLAP", "COVER", "ENCLOSES",
               "COMPOSITE", "EQUAL", "COMPONENT", "ENCLOSED", "WITHIN">>
Locations == <<"EXTERIOR", "BOUNDARY", "INTERIOR">>

(* numbers of the relations as the library numbers them *)
DISJOINT == 0
TOUCH == 1
CROSS == 2
OVERLAP == 3
COVER == 4
ENCLOSES == 5
COMPOSITE == 6
EQUAL == 7
COMPONENT == 8
ENCLOSED == 9
WITHIN == 10

EXTERIOR == 0
BOUNDARY == 1
INTERIOR == 2

Complement(r) == CASE r = COVER -> WITHIN
                   [] r = WITHIN -> COVER
                   [] r = ENCLOSES -> ENCLOSED
                   [] r = ENCLOSED -> ENCLOSES
                   [] r = COMPOSITE -> COMPONENT
                   [] r = COMPONENT -> COMPOSITE
                   [] OTHER -> r

-----------------------------------------------------------------------------
(* exact predicates *)
Larger(a, b) == IF a > b THEN a ELSE b
Smaller(a, b) == IF a < b THEN a ELSE b
Sub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Neg(u) == <<-u[1], -u[2]>>
Cross(u, v) == u[1] * v[2] - u[2] * v[1]
Dot(u, v) == u[1] * v[1] + u[2] * v[2]
Orient(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
OnSegment(a, b, p) ==
  /\ p[1] <= Larger(a[1], b[1]) /\ p[1] >= Smaller(a[1], b[1])
  /\ p[2] <= Larger(a[2], b[2]) /\ p[2] >= Smaller(a[2], b[2])
  /\ Orient(a, b, p) = 0

BoxesMeet(e, f) ==
  /\ Smaller(e[1][1], e[2][1]) <= Larger(f[1][1], f[2][1])
  /\ Smaller(f[1][1], f[2][1]) <= Larger(e[1][1], e[2][1])
  /\ Smaller(e[1][2], e[2][2]) <= Larger(f[1][2], f[2][2])
  /\ Smaller(f[1][2], f[2][2]) <= Larger(e[1][2], e[2][2])

Opposite(p, q) == (p > 0 /\ q < 0) \/ (p < 0 /\ q > 0)

ProperlyCross(e, f) ==
  /\ Opposite(Orient(e[1], e[2], f[1]), Orient(e[1], e[2], f[2]))
  /\ Opposite(Orient(f[1], f[2], e[1]), Orient(f[1], f[2], e[2]))

Meet(e, f) == \/ ProperlyCross(e, f)
              \/ OnSegment(e[1], e[2], f[1]) \/ OnSegment(e[1], e[2], f[2])
              \/ OnSegment(f[1], f[2], e[1]) \/ OnSegment(f[1], f[2], e[2])

(* edges share more than one point *)
Coincide(e, f) ==
  LET u == Sub(e[2], e[1]) IN
  /\ Orient(e[1], e[2], f[1]) = 0 /\ Orient(e[1], e[2], f[2]) = 0
  /\ LET p == Dot(Sub(f[1], e[1]), u)
         q == Dot(Sub(f[2], e[1]), u)
     IN Larger(Smaller(p, q), 0) < Smaller(Larger(p, q), Dot(u, u))

-----------------------------------------------------------------------------
(* rings and edges *)
NextIndex(i, n) == IF i = n THEN 1 ELSE i + 1
RECURSIVE DoubleAreaUpTo(_, _)
DoubleAreaUpTo(v, i) ==
  IF i = 0 THEN 0
  ELSE Cross(v[i], v[NextIndex(i, Len(v))]) + DoubleAreaUpTo(v, i - 1)
(* relative to the first vertex, to keep the terms small *)
DoubleArea(v) == DoubleAreaUpTo([i \in DOMAIN v |-> Sub(v[i], v[1])], Len(v))

Forward(v) == {<<v[i], v[NextIndex(i, Len(v))]>> : i \in DOMAIN v}
Backward(v) == {<<v[NextIndex(i, Len(v))], v[i]>> : i \in DOMAIN v}
PositiveEdges(v) == IF DoubleArea(v) > 0 THEN Forward(v) ELSE Backward(v)
NegativeEdges(v) == IF DoubleArea(v) > 0 THEN Backward(v) ELSE Forward(v)

PolygonEdges(d) == PositiveEdges(d[1])
                   \cup UNION {NegativeEdges(d[i]) : i \in 2..Len(d)}

(* edges of the boundary; the interior of a shaped geometry is to the left *)
Edges(g) ==
  CASE g.k = "segment" -> {<<g.d[1], g.d[2]>>}
    [] g.k = "multisegment" -> {<<g.d[i][1], g.d[i][2]>> : i \in DOMAIN g.d}
    [] g.k = "contour" -> Forward(g.d)
    [] g.k = "region" -> PositiveEdges(g.d)
    [] g.k = "multiregion" -> UNION {PositiveEdges(g.d[i]) : i \in DOMAIN g.d}
    [] g.k = "polygon" -> PolygonEdges(g.d)
    [] g.k = "multipolygon" -> UNION {PolygonEdges(g.d[i]) : i \in DOMAIN g.d}

Shaped(g) == g.k \in ShapedKinds

(* parity of the crossings of a horizontal ray from a point off the edges *)
Inside(p, es) ==
  Cardinality({e \in es :
                 /\ (e[1][2] > p[2]) # (e[2][2] > p[2])
                 /\ (e[2][2] > e[1][2]) = (Orient(e[1], e[2], p) > 0)}) % 2 = 1

-----------------------------------------------------------------------------
(* location of a point *)
Locate(p, g) ==
  LET es == Edges(g) IN
  IF \E e \in es : OnSegment(e[1], e[2], p) THEN BOUNDARY
  ELSE IF Shaped(g) /\ Inside(p, es) THEN INTERIOR
  ELSE EXTERIOR

-----------------------------------------------------------------------------
(* germs of an edge e among the edges ys *)

(* rays of the edges of ys that properly meet the line of e, at the points *)
(* of e; <<n, d, ray, left>>: the point is e[1] + n/d (e[2] - e[1]), left: *)
(* the interior is to the left of the ray                                  *)
TransversalRays(e, ys) ==
  LET u == Sub(e[2], e[1])
      Of(f) ==
        LET v == Sub(f[2], f[1])
            w == Sub(f[1], e[1])
            c == Cross(u, v)
            d == IF c > 0 THEN c ELSE -c
            n == IF c > 0 THEN Cross(w, v) ELSE -Cross(w, v)
            m == IF c > 0 THEN Cross(w, u) ELSE -Cross(w, u)
        IN IF c # 0 /\ n >= 0 /\ n <= d /\ m >= 0 /\ m <= d
           THEN (IF m < d THEN {<<n, d, v, TRUE>>} ELSE {})
                \cup (IF m > 0 THEN {<<n, d, Neg(v), FALSE>>} ELSE {})
           ELSE {}
  IN UNION {Of(f) : f \in ys}

(* edges of ys along e: <<lo, hi, same>>, in units of 1/|e|^2 of e *)
Alongs(e, ys) ==
  LET u == Sub(e[2], e[1])
      l == Dot(u, u)
  IN {<<Smaller(Dot(Sub(f[1], e[1]), u), Dot(Sub(f[2], e[1]), u)),
        Larger(Dot(Sub(f[1], e[1]), u), Dot(Sub(f[2], e[1]), u)),
        Dot(Sub(f[2], f[1]), u) > 0>> :
      f \in {f \in ys : /\ Orient(e[1], e[2], f[1]) = 0
                        /\ Orient(e[1], e[2], f[2]) = 0
                        /\ Larger(Dot(Sub(f[1], e[1]), u),
                               Dot(Sub(f[2], e[1]), u)) >= 0
                        /\ Smaller(Dot(Sub(f[1], e[1]), u),
                               Dot(Sub(f[2], e[1]), u)) <= l}}

Half(base, v) == LET c == Cross(base, v)
                 IN IF c > 0 THEN 1
                    ELSE IF c < 0 THEN 3
                    ELSE IF Dot(base, v) > 0 THEN 0 ELSE 2
(* v is met before w when turning counterclockwise from base *)
Before(base, v, w) == LET i == Half(base, v)
                          j == Half(base, w)
                      IN IF i # j THEN i < j ELSE Cross(v, w) > 0

EdgeGerms(e, all, shaped) ==
  LET ys == {f \in all : BoxesMeet(e, f)}
      u == Sub(e[2], e[1])
      l == Dot(u, u)
      transversals == TransversalRays(e, ys)
      alongs == Alongs(e, ys)
      (* the points where e meets ys, but for the end of e *)
      points == {<<r[1], r[2]>> : r \in {r \in transversals : r[1] < r[2]}}
                \cup {<<Larger(a[1], 0), l>> : a \in {a \in alongs : a[1] < l}}
                \cup {<<a[2], l>> : a \in {a \in alongs : a[2] < l}}
      GermAt(t) ==
        LET on == {a \in alongs : a[1] * t[2] <= t[1] * l
                                  /\ t[1] * l < a[2] * t[2]}
        IN IF on # {}
           THEN IF \E a \in on : a[3] THEN "SAME" ELSE "OPP"
           ELSE IF ~shaped THEN "OUT"
           ELSE LET rays == {<<r[3], r[4]>> :
                             r \in {r \in transversals :
                                      r[1] * t[2] = t[1] * r[2]}}
                            \cup {<<Neg(u), ~a[3]>> :
                                  a \in {a \in alongs :
                                           a[2] * t[2] = t[1] * l}}
                    first == CHOOSE r \in rays :
                               \A q \in rays : ~Before(u, q[1], r[1])
                IN IF first[2] THEN "OUT" ELSE "IN"
      start == IF \E t \in points : t[1] = 0 THEN {}
               ELSE IF shaped /\ Inside(e[1], all) THEN {"IN"}
               ELSE {"OUT"}
  IN start \cup {GermAt(t) : t \in points}

Germs(xs, ys, shaped) == UNION {EdgeGerms(e, ys, shaped) : e \in xs}

Contact(xs, ys) == \E e \in xs : \E f \in ys : BoxesMeet(e, f) /\ Meet(e, f)

-----------------------------------------------------------------------------
(* relation of shaped geometries *)
ShapedInShaped(xs, ys) ==
  LET xGerms == Germs(xs, ys, TRUE)
      yGerms == Germs(ys, xs, TRUE)
      contact == Contact(xs, ys)
      xSubset == xGerms \cap {"OUT", "OPP"} = {} /\ "IN" \notin yGerms
      ySubset == yGerms \cap {"OUT", "OPP"} = {} /\ "IN" \notin xGerms
  IN IF xSubset /\ ySubset THEN EQUAL
     ELSE IF xSubset
     THEN IF ~contact THEN WITHIN
          ELSE IF xGerms \cap {"IN", "OUT"} = {} THEN COMPONENT
          ELSE ENCLOSED
     ELSE IF ySubset
     THEN IF ~contact THEN COVER
          ELSE IF yGerms \cap {"IN", "OUT"} = {} THEN COMPOSITE
          ELSE ENCLOSES
     ELSE IF xGerms \cap {"IN", "SAME"} # {} \/ "IN" \in yGerms THEN OVERLAP
     ELSE IF contact THEN TOUCH
     ELSE DISJOINT

(* relation of a linear geometry with a shaped one *)
LinearInShaped(xs, ys) ==
  LET germs == Germs(xs, ys, TRUE)
      contact == Contact(xs, ys)
  IN IF "OUT" \in germs
     THEN IF "IN" \in germs THEN CROSS
          ELSE IF contact THEN TOUCH
          ELSE DISJOINT
     ELSE IF "IN" \notin germs THEN COMPONENT
     ELSE IF contact THEN ENCLOSED
     ELSE WITHIN

(* rays of the edges at an endpoint p of some edge *)
RaysAt(p, es) ==
  LET at == {e \in es : OnSegment(e[1], e[2], p)}
  IN {Sub(e[2], p) : e \in {e \in at : e[2] # p}}
     \cup {Sub(e[1], p) : e \in {e \in at : e[1] # p}}

(* going around the vertex one meets rays of both in alternation *)
Alternate(vs, ws) ==
  \E v1, v2 \in vs :
    /\ v1 # v2
    /\ \E w1, w2 \in ws : Before(v1, w1, v2) /\ Before(v1, v2, w2)

CrossAtPoint(xs, ys) ==
  \/ \E e \in xs : \E f \in ys : BoxesMeet(e, f) /\ ProperlyCross(e, f)
  \/ \E p \in UNION {{e[1], e[2]} : e \in xs \cup ys} :
       Alternate(RaysAt(p, xs), RaysAt(p, ys))

(* relation of linear geometries *)
LinearInLinear(xs, ys) ==
  LET xGerms == Germs(xs, ys, FALSE)
      yGerms == Germs(ys, xs, FALSE)
      xSubset == "OUT" \notin xGerms
      ySubset == "OUT" \notin yGerms
  IN IF xSubset /\ ySubset THEN EQUAL
     ELSE IF xSubset THEN COMPONENT
     ELSE IF ySubset THEN COMPOSITE
     ELSE IF xGerms \cap {"SAME", "OPP"} # {} THEN OVERLAP
     ELSE IF ~Contact(xs, ys) THEN DISJOINT
     ELSE IF CrossAtPoint(xs, ys) THEN CROSS
     ELSE TOUCH

Relate(x, y) ==
  LET xs == Edges(x)
      ys == Edges(y)
  IN IF Shaped(x) THEN ShapedInShaped(xs, ys)
     ELSE IF Shaped(y) THEN LinearInShaped(xs, ys)
     ELSE LinearInLinear(xs, ys)

(* what <kind of x>_in_<kind of y>(x, y) has to return *)
Expected(x, y) == IF x.k = "point" THEN Locate(x.d, y) ELSE Relate(x, y)

(* the results a pair of kinds admits *)
Admissible(xKind, yKind) ==
  IF xKind = "point"
  THEN IF yKind \in ShapedKinds THEN {EXTERIOR, BOUNDARY, INTERIOR}
       ELSE {EXTERIOR, BOUNDARY}
  ELSE IF xKind \in ShapedKinds
  THEN {DISJOINT, TOUCH, OVERLAP, COVER, ENCLOSES, COMPOSITE, EQUAL,
        COMPONENT, ENCLOSED, WITHIN}
  ELSE IF yKind \in ShapedKinds
  THEN {DISJOINT, TOUCH, CROSS, COMPONENT, ENCLOSED, WITHIN}
  ELSE {DISJOINT, TOUCH, CROSS, OVERLAP, COMPOSITE, EQUAL, COMPONENT}

-----------------------------------------------------------------------------
(* the geometries the relations are defined for *)
Pairs(n) == {p \in (1..n) \X (1..n) : p[1] < p[2]}

DiscreteEdges(es, fs) ==
  \A e \in es : \A f \in fs :
    BoxesMeet(e, f) => ~ProperlyCross(e, f) /\ ~Coincide(e, f)

ValidRing(v) ==
  LET n == Len(v)
      edge == [i \in 1..n |-> <<v[i], v[NextIndex(i, n)]>>]
  IN /\ n >= 3
     /\ Cardinality({v[i] : i \in 1..n}) = n
     /\ \A p \in Pairs(n) :
          LET i == p[1]
              j == p[2]
          IN IF j = i + 1 \/ (i = 1 /\ j = n)
             THEN ~Coincide(edge[i], edge[j])
             ELSE ~(BoxesMeet(edge[i], edge[j]) /\ Meet(edge[i], edge[j]))
     /\ DoubleArea(v) # 0

ValidRings(d) ==
  /\ d # <<>>
  /\ \A i \in DOMAIN d : ValidRing(d[i])
  /\ \A p \in Pairs(Len(d)) :
       LET es == PositiveEdges(d[p[1]])
           fs == PositiveEdges(d[p[2]])
       IN DiscreteEdges(es, fs) /\ ShapedInShaped(es, fs) \in {DISJOINT, TOUCH}

(* a polygon's interior is connected: the graph of its rings and the points *)
(* where they touch has no cycles                                          *)
TouchPoints(d) ==
  {p \in UNION {{d[i][j] : j \in DOMAIN d[i]} : i \in DOMAIN d} :
     Cardinality({i \in DOMAIN d :
                    \E e \in Forward(d[i]) : OnSegment(e[1], e[2], p)}) > 1}
RECURSIVE Spread(_, _)
Spread(seen, links) ==
  LET more == seen \cup UNION {l \in links : l \cap seen # {}}
  IN IF more = seen THEN seen ELSE Spread(more, links)
ConnectedInterior(d) ==
  LET links == {{<<i>>, p} : <<i, p>> \in
                  {q \in (DOMAIN d) \X TouchPoints(d) :
                     \E e \in Forward(d[q[1]]) : OnSegment(e[1], e[2], q[2])}}
      nodes == UNION links
      parts == {Spread({n}, links) : n \in nodes}
  IN Cardinality(nodes) = Cardinality(links) + Cardinality(parts)

ValidPolygonLoosely(d) ==
  /\ d # <<>>
  /\ ValidRing(d[1])
  /\ Len(d) > 1 => ValidRings(Tail(d))
  /\ \A i \in 2..Len(d) :
       LET hs == PositiveEdges(d[i])
           bs == PositiveEdges(d[1])
       IN DiscreteEdges(hs, bs) /\ ShapedInShaped(hs, bs) \in {WITHIN, ENCLOSED}
ValidPolygon(d) == ValidPolygonLoosely(d) /\ ConnectedInterior(d)

ValidSegment(d) == d[1] # d[2]

Valid(g) ==
  CASE g.k = "point" -> TRUE
    [] g.k = "segment" -> ValidSegment(g.d)
    [] g.k = "multisegment" ->
         /\ g.d # <<>>
         /\ \A i \in DOMAIN g.d : ValidSegment(g.d[i])
         /\ \A p \in Pairs(Len(g.d)) : DiscreteEdges({g.d[p[1]]}, {g.d[p[2]]})
    [] g.k = "contour" -> ValidRing(g.d)
    [] g.k = "region" -> ValidRing(g.d)
    [] g.k = "multiregion" -> ValidRings(g.d)
    [] g.k = "polygon" -> ValidPolygon(g.d)
    [] g.k = "multipolygon" ->
         /\ g.d # <<>>
         /\ \A i \in DOMAIN g.d : ValidPolygon(g.d[i])
         /\ \A p \in Pairs(Len(g.d)) :
              LET es == PolygonEdges(g.d[p[1]])
                  fs == PolygonEdges(g.d[p[2]])
              IN /\ DiscreteEdges(es, fs)
                 /\ ShapedInShaped(es, fs) \in {DISJOINT, TOUCH}
=============================================================================
