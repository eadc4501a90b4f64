--------------------------- MODULE MCMutableGraph ---------------------------
(* Every sequence of contractions, edge changes, vertex removals on every     *)
(* small graph: contents stay a partition of the remaining vertices, and the  *)
(* weight between any two sides is the weight between their contents in the   *)
(* graph of original vertices (this is what all contraction-based algorithms  *)
(* of the library rely on).                                                   *)
EXTENDS MutableGraph
CONSTANTS N, WMax, Steps
VARIABLES g, orig, k          \* orig: weights between original vertices
vars == <<g, orig, k>>
V == 0 .. (N - 1)
Init == /\ k = 0
        /\ orig \in [Pairs(V) -> 0 .. WMax]
        /\ g = [L |-> V, W |-> Norm(orig), C |-> [v \in V |-> {v}], F |-> [v \in V |-> 0]]
Alive == UNION {g.C[l] : l \in g.L}
DoContract == \E S \in SUBSET g.L : Cardinality(S) > 1 /\ \E r \in S : g' = ContractL(g, S, r) /\ UNCHANGED orig
DoAdd == \E a, b \in g.L : a < b /\ g' = AddW(g, a, b, 1)
         /\ orig' = [orig EXCEPT ![{CHOOSE x \in g.C[a] : TRUE, CHOOSE x \in g.C[b] : TRUE}] = @ + 1]
DoRemove == \E a \in g.L : g' = RemoveV(g, a) /\ orig' = [p \in Pairs(V) |-> IF p \cap g.C[a] # {} THEN 0 ELSE orig[p]]
Next == k < Steps /\ k' = k + 1 /\ (DoContract \/ DoAdd \/ DoRemove)
Spec == Init /\ [][Next]_vars
Partition == /\ \A a \in g.L : g.C[a] # {}
             /\ \A a, b \in g.L : a # b => g.C[a] \cap g.C[b] = {}
             /\ DOMAIN g.W \subseteq Pairs(g.L) /\ \A p \in DOMAIN g.W : g.W[p] > 0
CutsPreserved ==
    \A S \in SUBSET g.L :
        LET A == UNION {g.C[l] : l \in S}
            B == Alive \ A
        IN  MapThenSumSet(LAMBDA p : g.W[p], {p \in DOMAIN g.W : Cardinality(p \cap S) = 1})
            = MapThenSumSet(LAMBDA p : orig[p], {p \in Pairs(V) : p \cap A # {} /\ p \cap B # {}})
DegreesSum == MapThenSumSet(LAMBDA a : Deg(g, a), g.L) = 2 * MapThenSumSet(LAMBDA p : g.W[p], DOMAIN g.W)
=============================================================================
