------------------------------ MODULE Universe ------------------------------
(***************************************************************************)
(* All the geometries of bounded size on a small grid, each figure once    *)
(* (contours start at their least vertex and go one way round, parts come  *)
(* in one order).  Used to enumerate test vectors (Vectors) and to check   *)
(* theorems about Planar on every pair of them (Theorems).                 *)
(***************************************************************************)
EXTENDS Planar, SequencesExt

Less(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Grid(w, h) == (0..w) \X (0..h)

SegmentsOn(w, h) == {s \in Grid(w, h) \X Grid(w, h) : Less(s[1], s[2])}

(* v goes on to p without touching itself *)
Extends(v, p) ==
  LET n == Len(v)
      e == <<v[n], p>>
  IN /\ Less(v[1], p)
     /\ \A i \in 1..n : v[i] # p
     /\ n > 1 => Orient(v[n - 1], v[n], p) # 0
     /\ \A i \in 1..(n - 2) : ~Meet(<<v[i], v[i + 1]>>, e)
RECURSIVE Paths(_, _, _)
Paths(w, h, k) ==
  IF k = 1 THEN {<<p>> : p \in Grid(w, h)}
  ELSE UNION {{Append(v, p) : p \in {p \in Grid(w, h) : Extends(v, p)}} :
              v \in Paths(w, h, k - 1)}
RingsOn(w, h, k) ==
  {v \in Paths(w, h, k) :
     /\ Less(v[2], v[k])
     /\ Orient(v[k - 1], v[k], v[1]) # 0
     /\ Orient(v[k], v[1], v[2]) # 0
     /\ ValidRing(v)}
RingsUpTo(w, h, k) == UNION {RingsOn(w, h, i) : i \in 3..k}

(* ordered selections of n elements of s, every set once *)
RECURSIVE Selections(_, _)
Selections(s, n) ==
  LET q == SetToSeq(s)
      RECURSIVE Choose(_, _)
      Choose(from, m) ==
        IF m = 0 THEN {<<>>}
        ELSE UNION {{<<q[i]>> \o t : t \in Choose(i + 1, m - 1)} :
                    i \in from..Len(q)}
  IN Choose(1, n)

MultisegmentsOn(w, h, n) ==
  {d \in Selections(SegmentsOn(w, h), n) :
     Valid([k |-> "multisegment", d |-> d])}
(* the parts are valid already *)
ApartEdges(es, fs) == /\ DiscreteEdges(es, fs)
                      /\ ShapedInShaped(es, fs) \in {DISJOINT, TOUCH}
MultiregionsOf(rings, n) ==
  {d \in Selections(rings, n) :
     \A p \in Pairs(Len(d)) : ApartEdges(PositiveEdges(d[p[1]]), PositiveEdges(d[p[2]]))}
PolygonsOf(borders, holes, n) ==
  UNION {{<<b>> \o d : d \in {d \in Selections(
            {h \in holes : ValidPolygon(<<b, h>>)}, n) :
              ValidPolygon(<<b>> \o d)}} : b \in borders}
MultipolygonsOf(polygons, n) ==
  {d \in Selections(polygons, n) :
     \A p \in Pairs(Len(d)) : ApartEdges(PolygonEdges(d[p[1]]), PolygonEdges(d[p[2]]))}

-----------------------------------------------------------------------------
(* the universes of the kinds *)
As(kind, ds) == {[k |-> kind, d |-> d] : d \in ds}
Move(g, o) == [i \in DOMAIN g |-> <<g[i][1] + o[1], g[i][2] + o[2]>>]

Image(g, F(_)) ==
  LET Ring(v) == [i \in DOMAIN v |-> F(v[i])]
      Rings(d) == [i \in DOMAIN d |-> Ring(d[i])]
  IN [k |-> g.k,
      d |-> CASE g.k = "point" -> F(g.d)
              [] g.k \in {"segment", "contour", "region"} -> Ring(g.d)
              [] g.k = "multipolygon" -> [i \in DOMAIN g.d |-> Rings(g.d[i])]
              [] OTHER -> Rings(g.d)]

SmallRings(kind) == RingsUpTo(2, 2, 7)
(* frames and holes of polygons: most of a 4 by 4 square *)
Square(a, b) == <<<<a, a>>, <<a, b>>, <<b, b>>, <<b, a>>>>
Frames == {Square(0, 4),
           <<<<0, 0>>, <<0, 4>>, <<4, 4>>, <<2, 2>>, <<4, 0>>>>,
           <<<<0, 2>>, <<2, 4>>, <<4, 2>>, <<2, 0>>>>,
           <<<<0, 0>>, <<2, 2>>, <<0, 4>>, <<4, 4>>, <<4, 1>>, <<3, 0>>>>}
Small == {Move(t, o) : t \in {<<<<0, 0>>, <<1, 2>>, <<2, 0>>>>,
                              <<<<0, 0>>, <<0, 2>>, <<2, 1>>>>,
                              <<<<0, 1>>, <<1, 2>>, <<2, 1>>, <<1, 0>>>>,
                              <<<<0, 0>>, <<0, 2>>, <<1, 1>>, <<2, 2>>, <<2, 0>>>>,
                              Square(0, 1), Square(0, 2)},
                       o \in Grid(3, 3)}
(* definitions with an unused argument: TLC evaluates the others whether   *)
(* they are needed or not                                                  *)
Holes(kind) ==
  {h \in {Move(t, o) : t \in RingsOn(1, 1, 3), o \in Grid(3, 3)} \cup Small :
     \A i \in DOMAIN h : h[i][1] <= 4 /\ h[i][2] <= 4}
Polygons(kind) ==
  {<<f>> : f \in Frames}
  \cup PolygonsOf(Frames, Holes(kind), 1)
  \cup PolygonsOf({Square(0, 4)}, {h \in Holes(kind) : h[1][1] + h[1][2] <= 3}, 2)
(* parts of multipolygons: a polygon with a hole and what lies in, around it *)
Parts(kind) ==
  {<<t>> : t \in Holes(kind)}
  \cup PolygonsOf({Square(0, 4)},
                  Small \cup {Square(1, 3), Square(0, 2), Square(1, 2)}, 1)

UniverseOf(kind) ==
  CASE kind = "point" -> As(kind, Grid(6, 6))
    [] kind = "segment" -> As(kind, SegmentsOn(3, 2))
    [] kind = "multisegment" ->
         As(kind, MultisegmentsOn(2, 2, 2) \cup MultisegmentsOn(2, 1, 3))
    [] kind = "contour" -> As(kind, SmallRings(kind))
    [] kind = "region" -> As(kind, SmallRings(kind))
    [] kind = "multiregion" -> As(kind, MultiregionsOf(RingsUpTo(2, 2, 4), 2))
    [] kind = "polygon" ->
         As(kind, Polygons(kind))
    [] kind = "multipolygon" -> As(kind, MultipolygonsOf(Parts(kind), 2))
=============================================================================
