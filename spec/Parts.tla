-------------------------------- MODULE Parts --------------------------------
(***************************************************************************)
(* What the relations of the parts of figures say about the relation of    *)
(* the figures, and what the relations of boundaries say about it.  Given  *)
(* answers about parts (boundaries), the operators give the set of answers *)
(* about the whole figures that are consistent with them.                  *)
(* Theorems.tla checks them against Planar on universes of small figures.  *)
(***************************************************************************)
EXTENDS Planar

Subsets == {EQUAL, COMPONENT, ENCLOSED, WITHIN}
Supersets == {EQUAL, COMPOSITE, ENCLOSES, COVER}
Apart == {DISJOINT, TOUCH}

(* the parts of a figure: the union of the parts is the figure, and the    *)
(* parts have connected interiors that do not meet                         *)
PartsOf(g) ==
  CASE g.k = "multisegment" ->
         [i \in DOMAIN g.d |-> [k |-> "segment", d |-> g.d[i]]]
    [] g.k = "contour" ->
         [i \in DOMAIN g.d |->
            [k |-> "segment", d |-> <<g.d[i], g.d[NextIndex(i, Len(g.d))]>>]]
    [] g.k = "multiregion" ->
         [i \in DOMAIN g.d |-> [k |-> "region", d |-> g.d[i]]]
    [] g.k = "multipolygon" ->
         [i \in DOMAIN g.d |-> [k |-> "polygon", d |-> g.d[i]]]
    [] OTHER -> <<g>>
(* the border and the holes of a polygon *)
RingsOf(g) == [i \in DOMAIN g.d |-> [k |-> "region", d |-> g.d[i]]]

-----------------------------------------------------------------------------
(* the answer about linear and shaped as what the linear one has: pieces   *)
(* in the interior, outside, contact with the boundary                     *)
HasIn(r) == r \in {CROSS, ENCLOSED, WITHIN}
HasOut(r) == r \in {CROSS, TOUCH, DISJOINT}
HasContact(r) == r \in {TOUCH, COMPONENT, ENCLOSED}
MayHaveContact(r) == r \notin {DISJOINT, WITHIN}
LinearAnswer(in, out, contact) ==
  IF out THEN IF in THEN CROSS ELSE IF contact THEN TOUCH ELSE DISJOINT
  ELSE IF ~in THEN COMPONENT ELSE IF contact THEN ENCLOSED ELSE WITHIN
(* an answer about one segment that has pieces on both sides has contact *)
Consistent(in, out, contact) == ~in /\ ~out => contact
LinearAnswers(ins, outs, contacts) ==
  {LinearAnswer(t[1], t[2], t[3]) :
     t \in {t \in ins \X outs \X contacts : Consistent(t[1], t[2], t[3])}}

Contacts(rs) ==
  IF \E i \in DOMAIN rs : HasContact(rs[i]) THEN {TRUE}
  ELSE IF \A i \in DOMAIN rs : ~MayHaveContact(rs[i]) THEN {FALSE}
  ELSE {TRUE, FALSE}

(* linear x, rs[i]: its i-th part and the whole of shaped y *)
LinearByParts(rs) ==
  LinearAnswers({\E i \in DOMAIN rs : HasIn(rs[i])},
                {\E i \in DOMAIN rs : HasOut(rs[i])}, Contacts(rs))
(* rs[j]: linear x and the j-th part of shaped y *)
LinearInParts(rs) ==
  LinearAnswers({\E j \in DOMAIN rs : HasIn(rs[j])},
                IF \E j \in DOMAIN rs : ~HasOut(rs[j]) THEN {FALSE}
                ELSE IF \A j \in DOMAIN rs : rs[j] = DISJOINT THEN {TRUE}
                ELSE {TRUE, FALSE},
                Contacts(rs))
(* rs[1]: linear x and the border, rs[j]: linear x and a hole *)
LinearInRings(rs) ==
  LET holes == 2..Len(rs) IN
  LinearAnswers(IF ~HasIn(rs[1]) \/ \E j \in holes : ~HasOut(rs[j]) THEN {FALSE}
                ELSE IF \A j \in holes : rs[j] = DISJOINT THEN {TRUE}
                ELSE {TRUE, FALSE},
                {HasOut(rs[1]) \/ \E j \in holes : HasIn(rs[j])}, Contacts(rs))

(* rs[i][j]: the i-th part of shaped x and the j-th part of shaped y *)
ShapedByParts(rs) ==
  LET xs == DOMAIN rs
      ys == DOMAIN rs[1]
      X(set) == \A i \in xs : \E j \in ys : rs[i][j] \in set
      Y(set) == \A j \in ys : \E i \in xs : rs[i][j] \in set
      All(set) == \A i \in xs : \A j \in ys : rs[i][j] \in set
  IN IF X(Subsets) /\ Y(Supersets) THEN {EQUAL}
     ELSE IF X({WITHIN}) THEN {WITHIN}
     ELSE IF X({EQUAL, COMPONENT}) THEN {COMPONENT}
     ELSE IF X(Subsets) THEN {ENCLOSED}
     ELSE IF Y({COVER}) THEN {COVER}
     ELSE IF Y({EQUAL, COMPOSITE}) THEN {COMPOSITE}
     ELSE IF Y(Supersets) THEN {ENCLOSES}
     ELSE IF All({DISJOINT}) THEN {DISJOINT}
     ELSE IF All(Apart) THEN {TOUCH}
     ELSE {OVERLAP}
(* rs[1]: x, of one part, and the border, rs[j]: x and a hole *)
ShapedInRings(rs) ==
  LET holes == 2..Len(rs)
      in == {j \in holes : rs[j] \in Subsets}
  IN IF rs[1] \in Apart THEN {rs[1]}
     ELSE IF in # {}
     THEN IF \E j \in in : rs[j] = WITHIN THEN {DISJOINT} ELSE {TOUCH}
     ELSE IF rs[1] \in Subsets /\ \A j \in holes : rs[j] \in Apart
     THEN IF rs[1] = WITHIN /\ \A j \in holes : rs[j] = DISJOINT THEN {WITHIN}
          ELSE Subsets \ {WITHIN}
     ELSE IF rs[1] = COVER THEN {COVER}
     ELSE IF rs[1] \in Supersets THEN Supersets \ {COVER, EQUAL}
     ELSE (Supersets \ {COVER, EQUAL}) \cup {OVERLAP}

(* rs[i][j]: the i-th segment of linear x and the j-th segment of linear y *)
LinearByLinear(rs) ==
  LET Some(set) == \E i \in DOMAIN rs : \E j \in DOMAIN rs[i] : rs[i][j] \in set
      All(set) == ~Some((0..10) \ set)
      x == \A i \in DOMAIN rs : \E j \in DOMAIN rs[i] : rs[i][j] \in Subsets
      y == \A j \in DOMAIN rs[1] : \E i \in DOMAIN rs : rs[i][j] \in Supersets
      mayX == \A i \in DOMAIN rs : \E j \in DOMAIN rs[i] :
                rs[i][j] \in Subsets \cup Supersets \cup {OVERLAP}
      mayY == \A j \in DOMAIN rs[1] : \E i \in DOMAIN rs :
                rs[i][j] \in Subsets \cup Supersets \cup {OVERLAP}
      Xs == IF x THEN {TRUE} ELSE IF mayX THEN {TRUE, FALSE} ELSE {FALSE}
      Ys == IF y THEN {TRUE} ELSE IF mayY THEN {TRUE, FALSE} ELSE {FALSE}
  IN IF All({DISJOINT}) THEN {DISJOINT}
     ELSE IF All({DISJOINT, TOUCH}) THEN {TOUCH, CROSS}
     ELSE IF All({DISJOINT, TOUCH, CROSS}) THEN {CROSS}
     ELSE {IF t[1] THEN IF t[2] THEN EQUAL ELSE COMPONENT
           ELSE IF t[2] THEN COMPOSITE ELSE OVERLAP : t \in Xs \X Ys}

(* a point and the parts, rings *)
PointInParts(rs) ==
  IF \E i \in DOMAIN rs : rs[i] = INTERIOR THEN {INTERIOR}
  ELSE IF \E i \in DOMAIN rs : rs[i] = BOUNDARY THEN {BOUNDARY}
  ELSE {EXTERIOR}
PointInRings(rs) ==
  LET holes == 2..Len(rs)
  IN IF rs[1] = EXTERIOR \/ \E j \in holes : rs[j] = INTERIOR THEN {EXTERIOR}
     ELSE IF rs[1] = BOUNDARY \/ \E j \in holes : rs[j] = BOUNDARY
     THEN {BOUNDARY}
     ELSE {INTERIOR}

(* split: "x" the parts of x and the whole of y, "xy" the parts of both,   *)
(* "y" x and the parts of y, "rings" x and the rings of polygon y          *)
Splits(xk, yk) ==
  IF xk = "point" THEN {"y"} \cup (IF yk = "polygon" THEN {"rings"} ELSE {})
  ELSE IF yk \in ShapedKinds /\ xk \notin ShapedKinds
  THEN {"x", "y"} \cup (IF yk = "polygon" THEN {"rings"} ELSE {})
  ELSE {"xy"} \cup (IF xk = "region" /\ yk = "polygon" THEN {"rings"} ELSE {})

SplitX(x, split) == IF split \in {"x", "xy"} THEN PartsOf(x) ELSE <<x>>
SplitY(y, split) == CASE split = "rings" -> RingsOf(y)
                      [] split \in {"y", "xy"} -> PartsOf(y)
                      [] OTHER -> <<y>>

Combined(xk, yk, split, rs) ==
  LET column == [i \in DOMAIN rs |-> rs[i][1]]
  IN IF xk = "point"
     THEN IF split = "rings" THEN PointInRings(rs[1]) ELSE PointInParts(rs[1])
     ELSE IF yk \in ShapedKinds /\ xk \notin ShapedKinds
     THEN CASE split = "x" -> LinearByParts(column)
            [] split = "y" -> LinearInParts(rs[1])
            [] OTHER -> LinearInRings(rs[1])
     ELSE IF split = "rings" THEN ShapedInRings(rs[1])
     ELSE IF xk \in ShapedKinds THEN ShapedByParts(rs)
     ELSE LinearByLinear(rs)

-----------------------------------------------------------------------------
(* the boundary of a figure, b: a contour or a multisegment *)
Undirected(es) == es \cup {<<e[2], e[1]>> : e \in es}
BoundaryOf(b, g) == /\ ~Shaped(b)
                    /\ Undirected(Edges(b)) = Undirected(Edges(g))

Along == {OVERLAP, COMPOSITE, EQUAL, COMPONENT}
GermsOf(r) == (IF HasIn(r) THEN {"IN"} ELSE {})
              \cup (IF HasOut(r) THEN {"OUT"} ELSE {})

(* l: the boundary of x and y, k: the boundary of y and x, n: the two      *)
(* boundaries; -> what x and y may be                                      *)
ShapedByBoundaries(l, k, n) ==
  LET contact == n # DISJOINT
      sides == IF n \in Along THEN {{"SAME"}, {"OPP"}, {"SAME", "OPP"}} ELSE {{}}
      Answer(s) ==
        LET xGerms == GermsOf(l) \cup s
            yGerms == GermsOf(k) \cup s
            xSubset == xGerms \cap {"OUT", "OPP"} = {} /\ "IN" \notin yGerms
            ySubset == yGerms \cap {"OUT", "OPP"} = {} /\ "IN" \notin xGerms
        IN IF xSubset /\ ySubset THEN EQUAL
           ELSE IF xSubset
           THEN IF ~contact THEN WITHIN
                ELSE IF xGerms \cap {"IN", "OUT"} = {} THEN COMPONENT
                ELSE ENCLOSED
           ELSE IF ySubset
           THEN IF ~contact THEN COVER
                ELSE IF yGerms \cap {"IN", "OUT"} = {} THEN COMPOSITE
                ELSE ENCLOSES
           ELSE IF xGerms \cap {"IN", "SAME"} # {} \/ "IN" \in yGerms
           THEN OVERLAP
           ELSE IF contact THEN TOUCH
           ELSE DISJOINT
  IN {Answer(s) : s \in sides}
(* whether the three answers about boundaries fit together *)
BoundariesFit(l, k, n) ==
  /\ HasContact(l) \/ HasContact(k) => n # DISJOINT
  /\ ~MayHaveContact(l) \/ ~MayHaveContact(k) => n = DISJOINT
  /\ (l = COMPONENT) = (n \in {COMPONENT, EQUAL})
  /\ (k = COMPONENT) = (n \in {COMPOSITE, EQUAL})

(* m: linear x and y, n: x and the boundary of y *)
LinearByBoundary(m, n) ==
  /\ HasContact(m) => n # DISJOINT
  /\ ~MayHaveContact(m) => n = DISJOINT
  /\ (m = COMPONENT) = (n \in {COMPONENT, EQUAL})
=============================================================================
