------------------------------- MODULE Cactus -------------------------------
(***************************************************************************)
(* The set of all minimum cuts of a graph and its cactus representation.     *)
(*                                                                           *)
(* A cactus for (n, e) is a graph (hn, he) together with a map pos from the   *)
(* vertices to its nodes such that the minimum cuts of the cactus, pulled     *)
(* back along pos, are exactly the minimum cuts of the graph.                 *)
(***************************************************************************)
EXTENDS Graphs

\* --- all minimum cuts of the graph ----------------------------------------
\* Contract every pair heavier than lam: no minimum cut separates it.
RECURSIVE KernelLoop(_, _, _, _)
KernelLoop(k, e, b, lam) ==
    LET W  == TLCEval(Matrix(k, e))
        hv == SelectSeq(e, LAMBDA x: W[x[1]][x[2]] > lam)
    IN  IF hv = << >> THEN [k |-> k, e |-> EdgeSeq(W), b |-> b]
        ELSE LET cs == TLCEval(SetToSeq(Components(k, hv)))
                 l  == TLCEval(LabelComps(cs, 1, [v \in Verts(k) |-> 0]))
                 b2 == TLCEval([v \in DOMAIN b |-> l[b[v]]])
             IN  KernelLoop(Len(cs), TLCEval(QuotientEdges(e, l)), b2, lam)
Kernel(n, e, lam) == KernelLoop(n, e, [v \in Verts(n) |-> v], lam)

\* minimum cuts as sets of vertices not containing vertex 0
AllMinCuts(n, e, lam) ==
    LET q == TLCEval(Kernel(n, e, lam))
        c == {T \in Sides(q.k) : CutW(q.e, T) = lam}
    IN  {Canon(n, {v \in Verts(n) : q.b[v] \in T}) : T \in c}

\* --- cuts of weight lam of a candidate cactus ------------------------------
\* All its edges weigh lam or lam/2, so such a cut crosses one or two edges.
Without(he, is) == SelectSeq([i \in 1 .. Len(he) |-> <<he[i][1], he[i][2], IF i \in is THEN 0 ELSE 1>>],
                             LAMBDA x: x[3] > 0)
CutBy(hn, he, is) ==
    LET a == he[Min(is)][1]
        C == TLCEval(Component(hn, Without(he, is), a))
    IN  IF \A i \in is : (he[i][1] \in C) # (he[i][2] \in C) THEN {C} ELSE {}
CactusNodeCuts(hn, he, lam) ==
    LET E  == 1 .. Len(he)
        E1 == {i \in E : he[i][3] = lam}
        E2 == {i \in E : 2 * he[i][3] = lam}

    IN  UNION {CutBy(hn, he, {i}) : i \in E1} \cup UNION {CutBy(hn, he, s) : s \in {{p[1], p[2]} : p \in {q \in E2 \X E2 : q[1] < q[2]}}}

WellFormedCactus(n, hn, he, cont, pos, lam) ==
    /\ hn >= 2
    /\ Len(cont) = hn /\ Len(pos) = n
    /\ \A i \in 1 .. Len(he) : /\ he[i][1] # he[i][2] /\ he[i][1] < hn /\ he[i][2] < hn
                               /\ he[i][3] = lam \/ 2 * he[i][3] = lam
    /\ \A v \in 1 .. n : pos[v] \in Verts(hn)
    \* the per-node vertex lists and the per-vertex positions agree
    /\ \A a \in 1 .. hn : /\ ToSet(cont[a]) = {v \in Verts(n) : pos[v + 1] = a - 1}
                          /\ Len(cont[a]) = Cardinality(ToSet(cont[a]))
    /\ Connected(hn, he)
    \* no lighter cut: a half edge is never a bridge
    /\ \A i \in 1 .. Len(he) : 2 * he[i][3] = lam => CutBy(hn, he, {i}) = {}

PulledBack(n, pos, T) == Canon(n, {v \in Verts(n) : pos[v + 1] \in T})

CactusCuts(n, hn, he, pos, lam) ==
    {PulledBack(n, pos, T) : T \in CactusNodeCuts(hn, he, lam)}

\* without cut saving the nodes carry no vertices: only the shape can be read
ShapeOK(lam, cuts, hn, he) ==
    lam > 0 => /\ \A i \in 1 .. Len(he) : he[i][3] = lam \/ 2 * he[i][3] = lam
               /\ Connected(hn, he)
               /\ Cardinality(CactusNodeCuts(hn, he, lam)) >= Cardinality(cuts)

CactusOK(n, e, lam, cuts, hn, he, cont, pos) ==
    IF lam = 0
    THEN \* disconnected: nodes of the cactus = connected components
         /\ Len(pos) = n
         /\ \A u, v \in Verts(n) : (pos[u + 1] = pos[v + 1]) <=> (v \in Component(n, e, u))
    ELSE /\ WellFormedCactus(n, hn, he, cont, pos, lam)
         /\ CactusCuts(n, hn, he, pos, lam) = cuts

\* --- best minimum cuts ------------------------------------------------------
Vol(e, S) == FoldLeft(LAMBDA a, x: a + (IF x[1] \in S THEN x[3] ELSE 0) + (IF x[2] \in S THEN x[3] ELSE 0), 0, e)
Lighter(a, b) == IF a < b THEN a ELSE b
Balance(n, S) == Lighter(Cardinality(S), n - Cardinality(S))
VolBalance(n, e, S) == Lighter(Vol(e, S), Vol(e, Verts(n) \ S))
\* conductance = weight / volume of the lighter side; all minimum cuts weigh the same
MostBalanced(n, e, cuts, S) ==
    Canon(n, S) \in cuts /\ \A T \in cuts : Balance(n, T) <= Balance(n, S)
LowestConductance(n, e, cuts, S) ==
    Canon(n, S) \in cuts /\ \A T \in cuts : VolBalance(n, e, T) <= VolBalance(n, e, S)
=============================================================================
