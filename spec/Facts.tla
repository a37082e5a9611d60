-------------------------------- MODULE Facts --------------------------------
(***************************************************************************)
(* How relations of several figures, and the locations of points in them,  *)
(* follow from each other.  Theorems.tla checks it against Planar.         *)
(***************************************************************************)
EXTENDS Parts

(* r relates a and b, s relates b and t: what may relate a and t *)
Compose(r, s) ==
  CASE r = EQUAL -> {s}
    [] s = EQUAL -> {r}
    [] r \in Subsets /\ s = WITHIN -> {WITHIN}
    [] r = WITHIN /\ s \in Subsets -> {WITHIN}
    [] r \in Subsets /\ s \in Subsets -> {COMPONENT, ENCLOSED, WITHIN, EQUAL}
    [] r \in Subsets /\ s = DISJOINT -> {DISJOINT}
    [] r = WITHIN /\ s = TOUCH -> {DISJOINT}
    \* a part of the boundary of one may go along the boundary of the other
    [] r \in Subsets /\ s = TOUCH -> {DISJOINT, TOUCH, COMPONENT}
    [] r \in Supersets /\ s = COVER -> {COVER}
    [] r = COVER /\ s \in Supersets -> {COVER}
    [] r \in Supersets /\ s \in Supersets -> {COMPOSITE, ENCLOSES, COVER, EQUAL}
    [] OTHER -> {}
ShapedCompose(r, s) ==
  CASE r \in Subsets /\ s = TOUCH -> {DISJOINT, TOUCH}
    [] OTHER -> {}

(* the answers about a point, given the relation of a and b *)
PointsAgree(shapedA, shapedB, r, la, lb) ==
  /\ r \in Subsets /\ la # EXTERIOR => lb # EXTERIOR
  /\ r \in Supersets /\ lb # EXTERIOR => la # EXTERIOR
  /\ r = DISJOINT => la = EXTERIOR \/ lb = EXTERIOR
  /\ r = WITHIN /\ la # EXTERIOR /\ shapedB => lb = INTERIOR
  /\ r = COVER /\ lb # EXTERIOR => la = INTERIOR
  /\ shapedA /\ shapedB =>
       /\ r \in Subsets /\ la = INTERIOR => lb = INTERIOR
       /\ r \in Supersets /\ lb = INTERIOR => la = INTERIOR
       /\ r = COMPONENT /\ la = BOUNDARY => lb = BOUNDARY
       /\ r = COMPOSITE /\ lb = BOUNDARY => la = BOUNDARY
       /\ r = EQUAL => la = lb
       /\ r = TOUCH => ~(la = INTERIOR /\ lb # EXTERIOR)
                       /\ ~(lb = INTERIOR /\ la # EXTERIOR)
  /\ ~shapedA /\ shapedB =>
       /\ r = COMPONENT /\ la = BOUNDARY => lb = BOUNDARY
       /\ r = TOUCH => ~(la # EXTERIOR /\ lb = INTERIOR)
  /\ ~shapedA /\ ~shapedB /\ r = EQUAL => la = lb
=============================================================================
