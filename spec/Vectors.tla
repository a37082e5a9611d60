------------------------------- MODULE Vectors -------------------------------
(***************************************************************************)
(* From the specification to the code: enumerates what the functions have  *)
(* to answer for all the pairs of slices of the universes of their kinds.  *)
(* Every step takes the next figure in the place of x of a job and prints  *)
(* a row of answers, one for every y; the rows are played back into the    *)
(* real library (lib/vectors.py).                                          *)
(***************************************************************************)
EXTENDS Universe, TLC, Json, IOUtils

(* <<[x, y: kinds, xof, xfrom, yof, yfrom, by]>>: every xof-th figure from *)
(* the xfrom-th on, moved by a vector, with every yof-th from the yfrom-th *)
Jobs == JsonDeserialize(IOEnv.JOBS)
KindsUsed == {Jobs[j].x : j \in DOMAIN Jobs} \cup {Jobs[j].y : j \in DOMAIN Jobs}

(* evaluated once *)
ASSUME TLCSet(1, [k \in KindsUsed |-> SetToSeq(UniverseOf(k))])
Universes == TLCGet(1)

Slice(n, of, from) == [i \in 1..((n + of - 1 - from) \div of) |-> (i - 1) * of + 1 + from]
(* points are on a grid twice as fine *)
Finer(g) == Image(g, LAMBDA p : <<2 * p[1], 2 * p[2]>>)

Xs(j) == LET u == Universes[j.x]
             s == Slice(Len(u), j.xof, j.xfrom)
         IN [i \in DOMAIN s |->
               Image(u[s[i]], LAMBDA p : <<p[1] + j.by[1], p[2] + j.by[2]>>)]
Ys(j) == LET u == Universes[j.y]
             s == Slice(Len(u), j.yof, j.yfrom)
         IN [i \in DOMAIN s |-> IF j.x = "point" THEN Finer(u[s[i]]) ELSE u[s[i]]]
ASSUME TLCSet(2, [j \in DOMAIN Jobs |-> Xs(Jobs[j])])
ASSUME TLCSet(3, [j \in DOMAIN Jobs |-> Ys(Jobs[j])])
ASSUME \A j \in DOMAIN Jobs :
         PrintT(ToJson([job |-> j, ys |-> [i \in DOMAIN TLCGet(3)[j] |-> TLCGet(3)[j][i].d],
                        n |-> Len(TLCGet(2)[j])]))


Lanes == 64
VARIABLES job, row
vars == <<job, row>>
Init == job \in DOMAIN Jobs /\ row \in (1 - Lanes)..0
Next == LET xs == TLCGet(2)[job]
            ys == TLCGet(3)[job]
        IN /\ row + Lanes <= Len(xs)
           /\ row' = row + Lanes
           /\ job' = job
           /\ PrintT(ToJson([job |-> job, row |-> row', x |-> xs[row'].d,
                             r |-> [i \in DOMAIN ys |-> Expected(xs[row'], ys[i])]]))
Spec == Init /\ [][Next]_vars
=============================================================================
