----------------------------- MODULE GenGraphs -----------------------------
(* Writes every labelled weighted graph the bounds allow, up to the canonical *)
(* choice of one representative per relabelling, as inputs for the drivers.   *)
EXTENDS Graphs, Json, IOUtils
CONSTANTS NMax, WMax, MaxEdges
Pairs(k) == SetToSeq({p \in Verts(k) \X Verts(k) : p[1] < p[2]})
Perms(k) == {f \in [Verts(k) -> Verts(k)] : \A a, b \in Verts(k) : f[a] = f[b] => a = b}
\* edge lists whose degree sequence is sorted: keeps all graphs up to isomorphism
Degs(k, e) == [v \in Verts(k) |-> WDegree(e, v)]
Sorted(k, e) == LET d == TLCEval(Degs(k, e)) IN \A v \in 1 .. (k - 1) : d[v - 1] >= d[v]
Lists(k) == LET P == Pairs(k)
                w == IF k = NMax THEN 1 ELSE WMax IN
   {SelectSeq([i \in 1 .. Len(P) |-> <<P[i][1], P[i][2], f[i]>>], LAMBDA x: x[3] > 0)
       : f \in [1 .. Len(P) -> 0 .. w]}
All == UNION {{[n |-> k, scale |-> 1, cat |-> "spec", e |-> x] : x \in {y \in Lists(k) : Len(y) <= MaxEdges /\ Sorted(k, y)}} : k \in 2 .. NMax}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(All))
VARIABLE z
Init == z = 0
Next == FALSE /\ z' = z
=============================================================================
