------------------------------- MODULE Graphs -------------------------------
(***************************************************************************)
(* Weighted undirected multigraphs and the cut-theoretic notions VieCut is  *)
(* about.  Vertices are 0..n-1, an edge list is a sequence of triples       *)
(* <<u, v, w>>.  Everything here is a definition, nothing is an algorithm   *)
(* taken from the implementation; StoerWagner and HeavyBlocks are proved    *)
(* equal to the brute force definition by model checking (MCGraphs.tla) and *)
(* are used where brute force does not scale.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

Verts(n) == 0 .. (n - 1)

\* weight of the edges leaving S
CutW(e, S) ==
    FoldLeft(LAMBDA a, x: IF (x[1] \in S) # (x[2] \in S) THEN a + x[3] ELSE a, 0, e)

\* every proper bipartition once: the side that does not contain vertex 0
Sides(n) == (SUBSET (1 .. (n - 1))) \ {{}}

BruteMinCut(n, e) == Min({CutW(e, S) : S \in Sides(n)})

BruteMinCuts(n, e) ==
    LET w == TLCEval([S \in Sides(n) |-> CutW(e, S)])
        m == Min({w[S] : S \in DOMAIN w})
    IN  [value |-> m, cuts |-> {S \in DOMAIN w : w[S] = m}]

\* cut weights as a function of the side: one pass, for callers that need more
CutTable(n, e) == TLCEval([S \in Sides(n) |-> CutW(e, S)])

\* the side not containing 0 of the bipartition {S, complement}
Canon(n, S) == IF 0 \in S THEN Verts(n) \ S ELSE S

ProperSide(n, S) == S # {} /\ S \subseteq Verts(n) /\ S # Verts(n)

WDegree(e, v) == CutW(e, {v})

\* components ------------------------------------------------------------
AdjSets(n, e) ==
    FoldLeft(LAMBDA f, x: IF x[1] = x[2] THEN f
                          ELSE [f EXCEPT ![x[1]] = @ \cup {x[2]}, ![x[2]] = @ \cup {x[1]}],
             [v \in Verts(n) |-> {}], e)

RECURSIVE ReachFrom(_, _, _)
ReachFrom(adj, seen, front) ==
    IF front = {} THEN seen
    ELSE LET nxt == TLCEval((UNION {adj[v] : v \in front}) \ seen)
         IN  ReachFrom(adj, TLCEval(seen \cup nxt), nxt)

Component(n, e, v) == LET adj == TLCEval(AdjSets(n, e)) IN ReachFrom(adj, {v}, {v})

RECURSIVE ComponentsOf(_, _)
ComponentsOf(adj, rest) ==
    IF rest = {} THEN {}
    ELSE LET c == TLCEval(ReachFrom(adj, {Min(rest)}, {Min(rest)}))
         IN  {c} \cup ComponentsOf(adj, TLCEval(rest \ c))

Components(n, e) == LET adj == TLCEval(AdjSets(n, e)) IN ComponentsOf(adj, Verts(n))

Connected(n, e) == n = 0 \/ Component(n, e, 0) = Verts(n)

\* quotient by a vertex labelling b : Verts(n) -> 0..k-1; loops vanish -----
QuotientEdges(e, b) ==
    SelectSeq([i \in 1 .. Len(e) |-> <<b[e[i][1]], b[e[i][2]], e[i][3]>>],
              LAMBDA x: x[1] # x[2])

\* total weight between every pair u < v, parallel edges merged; a function
\* whose domain is the set of adjacent pairs
PairWeights(e) ==
    FoldLeft(LAMBDA f, x:
               IF x[1] = x[2] THEN f
               ELSE LET p == IF x[1] < x[2] THEN <<x[1], x[2]>> ELSE <<x[2], x[1]>>
                    IN  IF p \in DOMAIN f THEN [f EXCEPT ![p] = @ + x[3]]
                        ELSE f @@ (p :> x[3]),
             << >>, e)

\* weight matrix over the interval 0..n-1 ------------------------------------
Matrix(n, e) ==
    FoldLeft(LAMBDA W, x:
               IF x[1] = x[2] THEN W
               ELSE [W EXCEPT ![x[1]][x[2]] = @ + x[3], ![x[2]][x[1]] = @ + x[3]],
             [u \in Verts(n) |-> [v \in Verts(n) |-> 0]], e)

RowSum(f, A) == FoldSet(LAMBDA v, a: a + f[v], 0, A)

\* Stoer-Wagner.  act is the set of super-vertices still alive; W[u][v] is only
\* meaningful for u, v in act ------------------------------------------------
ArgMax(f, D) == FoldSet(LAMBDA v, a: IF a = -1 \/ f[v] > f[a] THEN v ELSE a, -1, D)

RECURSIVE MAOrder(_, _, _, _)
MAOrder(W, rest, wv, prev) ==
    LET z == TLCEval(ArgMax(wv, rest)) IN
    IF Cardinality(rest) = 1 THEN <<prev, z, wv[z]>>
    ELSE LET row == W[z]
             nw == TLCEval([v \in DOMAIN wv |-> wv[v] + row[v]])
         IN  MAOrder(W, TLCEval(rest \ {z}), nw, z)

\* merge t into s
MergeInto(W, s, t) ==
    LET ws == W[s]
        wt == W[t]
        row == TLCEval([v \in DOMAIN W |-> IF v = s \/ v = t THEN 0 ELSE ws[v] + wt[v]])
    IN  TLCEval([u \in DOMAIN W |-> IF u = s THEN row
                                    ELSE IF u = t THEN wt
                                    ELSE [W[u] EXCEPT ![s] = row[u], ![t] = 0]])

RECURSIVE SWLoop(_, _, _)
SWLoop(W, act, best) ==
    IF Cardinality(act) < 2 THEN best
    ELSE LET a == Min(act)
             p == TLCEval(MAOrder(W, TLCEval(act \ {a}), W[a], a))
             nb == IF p[3] < best THEN p[3] ELSE best
         IN  IF nb = 0 THEN 0
             ELSE SWLoop(MergeInto(W, p[1], p[2]), TLCEval(act \ {p[2]}), nb)

StoerWagner(n, e) == SWLoop(TLCEval(Matrix(n, e)), Verts(n), 2147483647)

\* The same with a shortcut: ends of an edge at least as heavy as the best cut
\* known cannot be separated by a lighter one and are merged at once ---------
RECURSIVE MCLoop(_, _, _)
MCLoop(W, act, best) ==
    IF best = 0 \/ Cardinality(act) < 2 THEN best
    ELSE LET degs == TLCEval([v \in act |-> RowSum(W[v], act)])
             md == Min({degs[v] : v \in act})
             nb == TLCEval(IF md < best THEN md ELSE best)
             u == ArgMax([v \in act |-> Max({W[v][x] : x \in act})], act)
             z == ArgMax(W[u], TLCEval(act \ {u}))
         IN  IF Cardinality(act) = 2 THEN nb
             ELSE IF W[u][z] >= nb THEN MCLoop(MergeInto(W, u, z), TLCEval(act \ {z}), nb)
             ELSE LET a == Min(act)
                      p == TLCEval(MAOrder(W, TLCEval(act \ {a}), W[a], a))
                      nc == IF p[3] < nb THEN p[3] ELSE nb
                  IN  MCLoop(MergeInto(W, p[1], p[2]), TLCEval(act \ {p[2]}), nc)

\* value of a minimum cut of a graph with at least two vertices
MinCutHB(n, e) ==
    IF n <= 5 THEN BruteMinCut(n, e)
    ELSE MCLoop(TLCEval(Matrix(n, e)), Verts(n), 2147483647)

\* Blocks of vertices no minimum cut separates: an edge heavier than the ----
\* minimum weighted degree is in no minimum cut, so its ends may be merged. -
MinDegree(n, e) ==
    LET d == FoldLeft(LAMBDA f, x: IF x[1] = x[2] THEN f
                        ELSE [f EXCEPT ![x[1]] = @ + x[3], ![x[2]] = @ + x[3]],
                      [v \in Verts(n) |-> 0], e)
    IN  Min({d[v] : v \in Verts(n)})

RECURSIVE LabelComps(_, _, _)
LabelComps(cs, i, b) ==
    IF i > Len(cs) THEN b
    ELSE LabelComps(cs, i + 1, TLCEval([v \in DOMAIN b |-> IF v \in cs[i] THEN i - 1 ELSE b[v]]))

EdgeSeq(W) ==
    LET ps == SetToSeq({p \in (DOMAIN W) \X (DOMAIN W) : p[1] < p[2] /\ W[p[1]][p[2]] > 0})
    IN  [i \in 1 .. Len(ps) |-> <<ps[i][1], ps[i][2], W[ps[i][1]][ps[i][2]]>>]

\* one round: [k, b, e, deg] = number of blocks, labelling, merged quotient edges
HeavyBlocks(n, e) ==
    LET W == TLCEval(Matrix(n, e))
        m == MinDegree(n, e)
        hv == SelectSeq(e, LAMBDA x: W[x[1]][x[2]] > m)
        cs == TLCEval(SetToSeq(Components(n, hv)))
        b  == TLCEval(LabelComps(cs, 1, [v \in Verts(n) |-> 0]))
    IN  [k |-> Len(cs), b |-> b, deg |-> m,
         e |-> EdgeSeq(TLCEval(Matrix(Len(cs), QuotientEdges(e, b))))]
=============================================================================
