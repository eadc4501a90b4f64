------------------------------ MODULE MCGraphs ------------------------------
(* The scalable oracles agree with the definition on every weighted graph    *)
(* with up to N vertices and weights 0..WMax.                                 *)
EXTENDS Graphs
CONSTANTS N, WMax
VARIABLES n, e
Pairs(k) == SetToSeq({p \in Verts(k) \X Verts(k) : p[1] < p[2]})
Graphs_(k) == LET P == Pairs(k) IN
   {SelectSeq([i \in 1..Len(P) |-> <<P[i][1], P[i][2], f[i]>>], LAMBDA x: x[3] > 0)
       : f \in [1..Len(P) -> 0..WMax]}
Init == n \in 2..N /\ e \in Graphs_(n)
Next == UNCHANGED <<n, e>>
Oracles == LET b == BruteMinCut(n, e) IN StoerWagner(n, e) = b /\ MCLoop(TLCEval(Matrix(n, e)), Verts(n), 2147483647) = b
HeavyNeverCut ==
  LET h == HeavyBlocks(n, e) IN
  \A S \in BruteMinCuts(n, e).cuts : \A u, v \in Verts(n) :
      h.b[u] = h.b[v] => (u \in S <=> v \in S)
=============================================================================
