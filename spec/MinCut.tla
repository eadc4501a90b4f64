------------------------------- MODULE MinCut -------------------------------
(***************************************************************************)
(* The contraction machine behind every global minimum cut solver of the    *)
(* library, and the relation between a graph and the answers a solver may    *)
(* give for it.                                                              *)
(*                                                                           *)
(* State: the input graph (n, e), the partition of its vertices that the     *)
(* contractions performed so far define (blk), the lightest cut seen so far   *)
(* (best) and the vertices on one side of it (side).                         *)
(***************************************************************************)
EXTENDS Graphs
CONSTANTS
    N,          \* model checking: number of vertices of the inputs
    WMax,       \* model checking: edge weights are 0..WMax
    Slack,      \* 0: pairs with connectivity >= best may be contracted (exact solvers);
                \* 1: only > best (all minimum cuts kept); -1: unsound, for vacuity checks
    Approx      \* TRUE: contract connectivity >= max(1, best \div 2) (Matula)

MinusOne == -1

VARIABLES n, e, blk, best, side, done
vars == <<n, e, blk, best, side, done>>

BlockOf(v) == {u \in Verts(n) : blk[u] = blk[v]}
BlockSets == {BlockOf(v) : v \in Verts(n)}

\* connectivity of two vertices = lightest cut separating them that does not
\* split a block
BlockCuts == {S \in Sides(n) : \A B \in BlockSets : B \subseteq S \/ B \cap S = {}}
Conn(u, v) == Min({CutW(e, S) : S \in {T \in BlockCuts : (u \in T) # (v \in T)}})

Pairs(k) == SetToSeq({p \in Verts(k) \X Verts(k) : p[1] < p[2]})
AllGraphs(k) ==
    LET P == Pairs(k)
    IN  {SelectSeq([i \in 1 .. Len(P) |-> <<P[i][1], P[i][2], f[i]>>], LAMBDA x: x[3] > 0)
            : f \in [1 .. Len(P) -> 0 .. WMax]}

Init ==
    /\ n = N
    /\ e \in AllGraphs(N)
    /\ blk = [v \in Verts(n) |-> v]
    /\ \E v \in Verts(n) : /\ \A u \in Verts(n) : WDegree(e, v) <= WDegree(e, u)
                           /\ best = WDegree(e, v)
                           /\ side = {v}
    /\ done = FALSE

Threshold == IF Approx THEN (IF best \div 2 > 1 THEN best \div 2 ELSE 1) ELSE best + Slack

\* merge the blocks of two sufficiently connected vertices and look at the cut
\* around the merged block
Contract(u, v) ==
    /\ ~done
    /\ best > 0
    /\ blk[u] # blk[v]
    /\ Conn(u, v) >= Threshold
    /\ blk' = [x \in Verts(n) |-> IF blk[x] = blk[v] THEN blk[u] ELSE blk[x]]
    /\ LET B == BlockOf(u) \cup BlockOf(v)
           w == CutW(e, B)
       IN  IF B # Verts(n) /\ w < best
           THEN best' = w /\ side' = B
           ELSE UNCHANGED <<best, side>>
    /\ UNCHANGED <<n, e, done>>

Finish == /\ ~done
          /\ best = 0 \/ Cardinality(BlockSets) = 1
          /\ done' = TRUE
          /\ UNCHANGED <<n, e, blk, best, side>>

Next == (\E u, v \in Verts(n) : Contract(u, v)) \/ Finish

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Lam == BruteMinCut(n, e)

\* --- properties of the machine --------------------------------------------
SideRealisesBest == ProperSide(n, side) /\ CutW(e, side) = best
NeverBelow == best >= Lam
\* the minimum cut is never lost: it was recorded or no block crosses it
NeverLost == best = Lam \/ \E S \in BlockCuts : CutW(e, S) = Lam
ExactAtEnd == done => best = Lam
AllCutsKept == \A S \in BruteMinCuts(n, e).cuts :
                  best = Lam => \/ \A B \in BlockSets : B \subseteq S \/ B \cap S = {}
                                \/ Cardinality(BlockSets) = 1
ApproxAtEnd == done => best <= 2 * Lam + 1

\* --- admissible answers ----------------------------------------------------
(* kind: "exact", "heur", "matula"; v the reported value; saved/S the stored   *)
(* side.  These are the post-conditions of the machine above.                 *)
ValueOK(kind, lam, unit, v) ==
    CASE kind = "exact"  -> v = lam
      [] kind = "matula" -> v >= lam /\ v <= 2 * lam + (IF unit THEN 1 ELSE 0)
      [] OTHER           -> v >= lam
SideOK(nn, ee, v, S) == ProperSide(nn, S) /\ CutW(ee, S) = v
=============================================================================
