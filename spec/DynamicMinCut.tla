---------------------------- MODULE DynamicMinCut ----------------------------
(***************************************************************************)
(* The fully dynamic minimum cut: a graph under edge insertions and           *)
(* deletions, the value lam of its minimum cut and the set rep of the minimum *)
(* cuts that the maintained cactus represents, and the cacti kept from before *)
(* deletions (cache: value -> cuts).                                          *)
(*                                                                           *)
(* rep need not contain every minimum cut: a deletion that leaves lam         *)
(* unchanged may create new ones, and the structure does not look for them.    *)
(* full says when it certainly does contain all of them.                       *)
(***************************************************************************)
EXTENDS Cactus
CONSTANTS N, WMax, UseCache, Forget   \* Forget: a deletion does not recompute (vacuity)
VARIABLES W, lam, rep, full, cache
vars == <<W, lam, rep, full, cache>>

P == {p \in Verts(N) \X Verts(N) : p[1] < p[2]}
PSeq == SetToSeq(P)
EdgesOf(f) == SelectSeq([i \in 1 .. Len(PSeq) |-> <<PSeq[i][1], PSeq[i][2], f[PSeq[i]]>>], LAMBDA x: x[3] > 0)
Separates(S, u, v) == (u \in S) # (v \in S)
\* cuts that survive an insertion
Keep(cuts, u, v) == {S \in cuts : ~Separates(S, u, v)}
\* lightest cut separating u and v
Flow(e, u, v) == Min({CutW(e, S) : S \in {T \in Sides(N) : Separates(T, u, v)}})

Init ==
    /\ W \in [P -> 0 .. WMax]
    /\ \E mc \in {BruteMinCuts(N, EdgesOf(W))} : lam = mc.value /\ rep = mc.cuts
    /\ full = TRUE
    /\ cache = [c \in {} |-> {}]

Insert(p, w) ==
    /\ W[p] = 0
    /\ W' = [W EXCEPT ![p] = w]
    /\ \E kept \in {Keep(rep, p[1], p[2])} :
       \E kc \in {[c \in DOMAIN cache |-> Keep(cache[c], p[1], p[2])]} :
          IF kept # {}
          THEN rep' = kept /\ cache' = kc /\ UNCHANGED <<lam, full>>
          ELSE \E mc \in {BruteMinCuts(N, EdgesOf(W'))} :
                 /\ lam' = mc.value
                 /\ \/ rep' = mc.cuts /\ full' = TRUE /\ cache' = kc
                    \/ /\ mc.value \in DOMAIN kc
                       /\ \A c \in DOMAIN kc : c >= mc.value
                       /\ kc[mc.value] # {}
                       /\ rep' = kc[mc.value]
                       /\ full' = FALSE
                       /\ cache' = [c \in DOMAIN kc \ {mc.value} |-> kc[c]]

Put == IF UseCache THEN (lam :> rep) @@ cache ELSE cache

Delete(p) ==
    /\ W[p] > 0
    /\ W' = [W EXCEPT ![p] = 0]
    /\ IF lam = 0
       THEN /\ full' = (full /\ BruteMinCuts(N, EdgesOf(W')).cuts = rep)
            /\ UNCHANGED <<lam, rep, cache>>
       ELSE \E crossing \in {\E S \in rep : Separates(S, p[1], p[2])} :
            \E f \in {IF crossing THEN lam - W[p] ELSE Flow(EdgesOf(W'), p[1], p[2])} :
              IF f < lam /\ ~Forget
              THEN /\ lam' = f
                   /\ rep' = {S \in Sides(N) : CutW(EdgesOf(W'), S) = f}
                   /\ full' = TRUE
                   /\ cache' = Put
              ELSE /\ UNCHANGED <<lam, rep, cache>>
                   /\ full' = (full /\ f > lam)

Next == \E p \in P : Delete(p) \/ \E w \in 1 .. WMax : Insert(p, w)

\* --- properties -------------------------------------------------------------
ValueExact == lam = BruteMinCut(N, EdgesOf(W))
Sound == rep # {} /\ \A S \in rep : CutW(EdgesOf(W), S) = lam
Complete == full => rep = BruteMinCuts(N, EdgesOf(W)).cuts
CacheBounds == \A c \in DOMAIN cache : \A S \in cache[c] : CutW(EdgesOf(W), S) <= c
=============================================================================
