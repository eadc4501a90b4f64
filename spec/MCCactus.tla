------------------------------ MODULE MCCactus ------------------------------
(* Facts the cactus representation rests on, for every small graph.          *)
EXTENDS Cactus
CONSTANTS N, WMax
VARIABLES n, e
Pairs(k) == SetToSeq({p \in Verts(k) \X Verts(k) : p[1] < p[2]})
GraphsOf(k) == LET P == Pairs(k) IN
   {SelectSeq([i \in 1..Len(P) |-> <<P[i][1], P[i][2], f[i]>>], LAMBDA x: x[3] > 0)
       : f \in [1..Len(P) -> 0..WMax]}
Init == n \in 2..N /\ e \in GraphsOf(n)
Next == UNCHANGED <<n, e>>
B == BruteMinCuts(n, e)
KernelExact == B.value > 0 => AllMinCuts(n, e, B.value) = B.cuts
FewCuts == B.value > 0 => Cardinality(B.cuts) <= (n * (n - 1)) \div 2
Corners == B.value > 0 => \A S, T \in B.cuts :
   LET c == {S \cap T, S \ T, T \ S, Verts(n) \ (S \cup T)}
   IN  ({} \notin c) => \A x \in c : Canon(n, x) \in B.cuts
BestIsBest == B.value > 0 => \E S \in B.cuts : MostBalanced(n, e, B.cuts, S)
=============================================================================
