---------------------------- MODULE MutableGraph ----------------------------
(***************************************************************************)
(* The mutable graph as a state machine: vertices are abstract labels, each *)
(* holding a set of original vertices; weight between two labels is the sum *)
(* over all edges between them.  Contraction is the quotient.  Positions in *)
(* the implementation's arrays are not part of the state: the machine does  *)
(* not care how vertices are moved around.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

\* a graph: L labels, W : pairs {a,b} -> weight (only positive ones), C contents,
\* F marks; B the original vertices known to the graph
Pairs(L) == {p \in SUBSET L : Cardinality(p) = 2}
Wt(g, p) == IF p \in DOMAIN g.W THEN g.W[p] ELSE 0
Norm(W) == LET D == {p \in DOMAIN W : W[p] # 0} IN [p \in D |-> W[p]]
AddW(g, a, b, w) ==
    IF a = b THEN g
    ELSE [g EXCEPT !.W = Norm(({a, b} :> (Wt(g, {a, b}) + w)) @@ @)]
\* contraction of the labels S into one vertex, which keeps the label r \in S
ContractL(g, S, r) ==
    LET h(x) == IF x \in S THEN r ELSE x
        img == {{h(x) : x \in p} : p \in DOMAIN g.W}
        D == {p \in img : Cardinality(p) = 2}
        L2 == (g.L \ S) \cup {r}
    IN  [L |-> L2,
         W |-> TLCEval([q \in D |-> MapThenSumSet(LAMBDA p : g.W[p], {x \in DOMAIN g.W : {h(y) : y \in x} = q})]),
         C |-> [l \in L2 |-> IF l = r THEN UNION {g.C[x] : x \in S} ELSE g.C[l]],
         F |-> [l \in L2 |-> g.F[l]]]
RemoveV(g, a) ==
    [L |-> g.L \ {a}, W |-> [p \in {x \in DOMAIN g.W : a \notin x} |-> g.W[p]],
     C |-> [l \in g.L \ {a} |-> g.C[l]], F |-> [l \in g.L \ {a} |-> g.F[l]]]
AddV(g, a) ==
    [L |-> g.L \cup {a}, W |-> g.W, C |-> (a :> {}) @@ g.C, F |-> (a :> 0) @@ g.F]
Deg(g, a) == MapThenSumSet(LAMBDA p : g.W[p], {x \in DOMAIN g.W : a \in x})
=============================================================================
