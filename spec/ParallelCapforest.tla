------------------------- MODULE ParallelCapforest -------------------------
(***************************************************************************)
(* The parallel CAPFOREST of exact_parallel_minimum_cut.h: every thread      *)
(* scans vertices in the order of their connectivity r to what it scanned    *)
(* before, skips the vertices another thread has scanned, and joins the ends  *)
(* of an edge whose scan lifts r to the bound.  Whatever the schedule, only   *)
(* vertices with connectivity at least the bound may be joined.               *)
(*                                                                           *)
(* Racy = TRUE is the code before fix c5542bf: the queue was not told about   *)
(* a new r when the vertex was visited by another thread between the update   *)
(* of r and the update of the queue.                                          *)
(***************************************************************************)
EXTENDS Graphs
CONSTANTS N, WMax, Threads, Racy, WithDisable,
    AnyOrder    \* FALSE: the edges of a vertex are scanned in the order of their targets

VARIABLES k, bound, off, joined, visited, th
vars == <<k, bound, off, joined, visited, th>>

P2 == {p \in Verts(N) \X Verts(N) : p[1] < p[2]}
PSeq == SetToSeq(P2)
\* graphs up to isomorphism: starts and ties are arbitrary anyway
Perms == {f \in [Verts(N) -> Verts(N)] : \A a, b \in Verts(N) : a # b => f[a] # f[b]}
Moved(h, f) == [p \in P2 |-> h[<<Min({f[p[1]], f[p[2]]}), Max({f[p[1]], f[p[2]]})>>]]
Code(h) == FoldLeft(LAMBDA a, p : a * (WMax + 1) + h[p], 0, PSeq)
Lowest(h) == \A f \in Perms : Code(h) <= Code(Moved(h, f))
GSeq == SetToSeq({h \in [P2 -> 0 .. WMax] : Lowest(h)})
Cut(h, S) == MapThenSumSet(LAMBDA p : IF (p[1] \in S) # (p[2] \in S) THEN h[p] ELSE 0, P2)
LamOf(h) == [p \in P2 |-> Min({Cut(h, S) : S \in {X \in SUBSET Verts(N) : (p[1] \in X) /\ ~(p[2] \in X)}})]
Lams == [i \in DOMAIN GSeq |-> LamOf(GSeq[i])]
Adj == [i \in DOMAIN GSeq |-> [u \in Verts(N) |-> [v \in Verts(N) |->
            IF u = v THEN 0 ELSE GSeq[i][<<Min({u, v}), Max({u, v})>>]]]]
Degs == [i \in DOMAIN GSeq |-> [v \in Verts(N) |-> Cut(GSeq[i], {v})]]
W(u, v) == Adj[k][u][v]
Absent == 0 - 1

Start(v) == [pc |-> "pop", cur |-> v, tgt |-> v, todo |-> {}, loc |-> {},
             rv |-> [x \in Verts(N) |-> 0],
             key |-> [x \in Verts(N) |-> IF x = v THEN 0 ELSE Absent]]

Init ==
    /\ k \in DOMAIN GSeq
    /\ bound \in 1 .. Min({Degs[k][v] : v \in Verts(N)}) + 1
    /\ off \in (IF WithDisable THEN BOOLEAN ELSE {FALSE})
    /\ joined = {}
    /\ visited = {}
    /\ th \in [1 .. Threads -> {Start(v) : v \in Verts(N)}]
    \* threads are interchangeable
    /\ \A t \in 1 .. Threads - 1 : th[t].cur <= th[t + 1].cur

Queued(t) == {v \in Verts(N) : th[t].key[v] # Absent}
Top(t) == {v \in Queued(t) : \A u \in Queued(t) : th[t].key[u] <= th[t].key[v]}
Nb(v) == {u \in Verts(N) \ {v} : W(u, v) > 0}

Back(rest) == IF rest = {} THEN "pop" ELSE "scan"
Pop(t) ==
    /\ th[t].pc = "pop"
    /\ \E v \in Top(t) :
         th' = [th EXCEPT ![t].loc = @ \cup {v}, ![t].key[v] = Absent, ![t].cur = v,
                          ![t].pc = IF off THEN Back(Nb(v)) ELSE IF v \in visited THEN "pop" ELSE "mark",
                          ![t].todo = IF off \/ v \notin visited THEN Nb(v) ELSE {}]
    /\ UNCHANGED <<k, bound, off, joined, visited>>
\* the flag is tested and set in two steps: two threads may scan one vertex
Mark(t) ==
    /\ th[t].pc = "mark"
    /\ visited' = visited \cup {th[t].cur}
    /\ th' = [th EXCEPT ![t].pc = Back(th[t].todo)]
    /\ UNCHANGED <<k, bound, off, joined>>
Least(q) == IF q > bound THEN bound ELSE q
Edge(t) ==
    /\ th[t].pc = "scan"
    /\ \E y \in (IF AnyOrder THEN th[t].todo ELSE {Min(th[t].todo)}) :
       \E x \in {th[t].cur} : \E r \in {th[t].rv[y]} : \E rest \in {th[t].todo \ {y}} :
         IF y \in th[t].loc \/ r >= bound
         THEN th' = [th EXCEPT ![t].todo = rest, ![t].pc = Back(rest)] /\ UNCHANGED joined
         ELSE /\ joined' = IF r + W(x, y) >= bound THEN joined \cup {<<Min({x, y}), Max({x, y})>>} ELSE joined
              /\ th' = IF y \in visited THEN [th EXCEPT ![t].todo = rest, ![t].pc = Back(rest)]
                       ELSE [th EXCEPT ![t].todo = rest, ![t].rv[y] = Least(r + W(x, y)),
                                       ![t].tgt = y, ![t].pc = "queue"]
    /\ UNCHANGED <<k, bound, off, visited>>
Queue(t) ==
    /\ th[t].pc = "queue"
    /\ th' = IF Racy /\ th[t].tgt \in visited THEN [th EXCEPT ![t].pc = Back(th[t].todo)]
             ELSE [th EXCEPT ![t].pc = Back(th[t].todo), ![t].key[th[t].tgt] = th[t].rv[th[t].tgt]]
    /\ UNCHANGED <<k, bound, off, joined, visited>>

Next == \E t \in 1 .. Threads : Pop(t) \/ Mark(t) \/ Edge(t) \/ Queue(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Safe == \A p \in joined : Lams[k][p] >= bound
\* r never exceeds the weight that really leads to the vertices scanned
Honest == \A t \in 1 .. Threads : \A v \in Verts(N) : th[t].rv[v] <= Degs[k][v]
\* a vertex waits in the queue exactly under its r
InStep == Racy \/ \A t \in 1 .. Threads : \A v \in Queued(t) :
             \/ th[t].key[v] = th[t].rv[v]
             \/ th[t].pc = "queue" /\ th[t].tgt = v
\* nothing is left behind when the queues have run empty: with the lists of
\* scanned vertices switched off every thread reaches its whole component
Idle == \A t \in 1 .. Threads : th[t].pc = "pop" /\ Queued(t) = {}
Ends == <>Idle
=============================================================================
