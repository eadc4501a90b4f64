----------------------------- MODULE Reductions -----------------------------
(***************************************************************************)
(* The Padberg-Rinaldi tests as a machine: joins are decided on the degrees  *)
(* of the uncontracted graph, in any order, by any number of threads.  A     *)
(* vertex is marked once it has taken part in a join; the tests that need     *)
(* the degree of an uncontracted vertex ask for the mark.                     *)
(*                                                                           *)
(* Mode "one": a minimum cut below the limit must survive (the limit is at    *)
(* most the least degree); mode "all": every minimum cut below the limit must  *)
(* survive (the limit is at most the least degree plus one).                  *)
(***************************************************************************)
EXTENDS Graphs
CONSTANTS N, WMax,
    Mode,       \* "one" or "all"
    Guard,      \* tests 3 ask for unmarked vertices
    Singles,    \* in mode "all", tests 2 and 3 leave vertices of degree below the limit alone
    Strict      \* in mode "all", test 3 asks for more than half of the degree

VARIABLES k, limit, blk, marked
vars == <<k, limit, blk, marked>>

P2 == {p \in Verts(N) \X Verts(N) : p[1] < p[2]}
PSeq == SetToSeq(P2)
Perms == {f \in [Verts(N) -> Verts(N)] : \A a, b \in Verts(N) : a # b => f[a] # f[b]}
Moved(h, f) == [p \in P2 |-> h[<<Min({f[p[1]], f[p[2]]}), Max({f[p[1]], f[p[2]]})>>]]
Code(h) == FoldLeft(LAMBDA a, p : a * (WMax + 1) + h[p], 0, PSeq)
Lowest(h) == \A f \in Perms : Code(h) <= Code(Moved(h, f))
GSeq == SetToSeq({h \in [P2 -> 0 .. WMax] : Lowest(h)})
Cut(h, S) == MapThenSumSet(LAMBDA p : IF (p[1] \in S) # (p[2] \in S) THEN h[p] ELSE 0, P2)
Tab == [i \in DOMAIN GSeq |->
          [adj |-> [u \in Verts(N) |-> [v \in Verts(N) |-> IF u = v THEN 0 ELSE GSeq[i][<<Min({u, v}), Max({u, v})>>]]],
           deg |-> [v \in Verts(N) |-> Cut(GSeq[i], {v})],
           lam |-> Min({Cut(GSeq[i], S) : S \in Sides(N)}),
           mins |-> LET m == Min({Cut(GSeq[i], S) : S \in Sides(N)}) IN {S \in Sides(N) : Cut(GSeq[i], S) = m}]]

Init ==
    /\ k \in DOMAIN GSeq
    /\ limit \in 1 .. Min({Tab[k].deg[v] : v \in Verts(N)}) + (IF Mode = "all" THEN 1 ELSE 0)
    /\ blk = [v \in Verts(N) |-> v]
    /\ marked = {}

W(u, v) == Tab[k].adj[u][v]
Deg(v) == Tab[k].deg[v]
Join(u, v) ==
    /\ blk' = [x \in Verts(N) |-> IF blk[x] = blk[u] \/ blk[x] = blk[v] THEN Min({blk[u], blk[v]}) ELSE blk[x]]
    /\ marked' = marked \cup {u, v}
    /\ UNCHANGED <<k, limit>>
Alone(u, v) == Mode = "one" \/ ~Singles \/ (Deg(u) >= limit /\ Deg(v) >= limit)

Heavy(u, v) == W(u, v) >= limit /\ Join(u, v)
Half(u, v) == 2 * W(u, v) > Deg(u) /\ W(u, v) > 0 /\ Alone(u, v) /\ Join(u, v)
Triangle(u, v, x) ==
    /\ W(u, v) > 0 /\ W(u, x) > 0 /\ W(v, x) > 0
    /\ ~Guard \/ (u \notin marked /\ v \notin marked)
    /\ Alone(u, v)
    /\ IF Mode = "one" \/ ~Strict
       THEN 2 * (W(u, v) + W(u, x)) >= Deg(u) /\ 2 * (W(u, v) + W(v, x)) >= Deg(v)
       ELSE 2 * (W(u, v) + W(u, x)) > Deg(u) /\ 2 * (W(u, v) + W(v, x)) > Deg(v)
    /\ Join(u, v)
Paths(u, v) ==
    /\ W(u, v) > 0
    /\ W(u, v) + MapThenSumSet(LAMBDA x : Min({W(u, x), W(v, x)}), Verts(N) \ {u, v}) >= limit
    /\ Join(u, v)

Next == \E u, v \in Verts(N) :
          /\ u # v
          /\ \/ Heavy(u, v) \/ Half(u, v) \/ Paths(u, v)
             \/ \E x \in Verts(N) \ {u, v} : Triangle(u, v, x)
Spec == Init /\ [][Next]_vars

Crosses(S) == \E u, v \in Verts(N) : blk[u] = blk[v] /\ (u \in S) # (v \in S)
KeptOne == Tab[k].lam < limit => \E S \in Tab[k].mins : ~Crosses(S)
KeptAll == Tab[k].lam < limit => \A S \in Tab[k].mins : ~Crosses(S)
Kept == IF Mode = "one" THEN KeptOne ELSE KeptAll
=============================================================================
