-------------------------- MODULE ParallelContract --------------------------
(***************************************************************************)
(* Parallel contraction of contract_graph.h: threads take vertices, add the  *)
(* weight of their edges to a concurrent table keyed by pairs of blocks, and  *)
(* remember the keys they were the first to insert.  The weight of the pair   *)
(* of the two largest blocks (contested) is summed up per thread instead and  *)
(* merged under a lock, behind a barrier one thread inserts it.  Finally every *)
(* thread writes its own keys to slots of the edge array that it reserves by   *)
(* counting up the positions of both ends.                                    *)
(*                                                                           *)
(* Locked = FALSE: the sum of the contested weight is read and written        *)
(* without the lock.  Reserved = FALSE: positions are read and then advanced   *)
(* in two steps.                                                              *)
(***************************************************************************)
EXTENDS Graphs
CONSTANTS N, K, Threads, Locked, Reserved

VARIABLES e, map, contested, next, table, sum, out, pos, arrived, single, th
vars == <<e, map, contested, next, table, sum, out, pos, arrived, single, th>>

P2 == {p \in Verts(N) \X Verts(N) : p[1] < p[2]}
Blocks == 0 .. K - 1
BP == {p \in Blocks \X Blocks : p[1] < p[2]}
\* weights 1 and 2 tell edges apart; the graphs are all graphs on N vertices
Wgt(p) == 1 + ((p[1] + p[2]) % 2)
None == <<0, 0>>

Init ==
    /\ e \in SUBSET P2
    /\ map \in {f \in [Verts(N) -> Blocks] : \A b \in Blocks : \E v \in Verts(N) : f[v] = b}
    \* blocks are numbered by their first vertex
    /\ \A b \in 1 .. K - 1 : Min({v \in Verts(N) : map[v] = b - 1}) < Min({v \in Verts(N) : map[v] = b})
    /\ contested \in {None, <<0, 1>>}
    /\ next = 0
    /\ table = [p \in BP |-> 0]
    /\ sum = 0
    /\ out = {}
    /\ pos = [b \in Blocks |-> 0]
    /\ arrived = 0
    /\ single = FALSE
    /\ th = [t \in 1 .. Threads |-> [pc |-> "take", todo |-> {}, keys |-> {}, own |-> 0, tmp |-> 0, a |-> 0]]

Key(v, u) == <<map[u], map[v]>>         \* with map[u] < map[v]
Edges(v) == {u \in Verts(N) : <<Min({u, v}), Max({u, v})>> \in e /\ u # v /\ map[u] < map[v]}
Weight(v, u) == Wgt(<<Min({u, v}), Max({u, v})>>)

Take(t) ==
    /\ th[t].pc = "take"
    /\ IF next < N
       THEN /\ next' = next + 1
            /\ th' = [th EXCEPT ![t].todo = {<<next, u>> : u \in Edges(next)}, ![t].pc = "edge"]
       ELSE next' = next /\ th' = [th EXCEPT ![t].pc = IF contested = None THEN "wait" ELSE "sum"]
    /\ UNCHANGED <<e, map, contested, table, sum, out, pos, arrived, single>>
Edge(t) ==
    /\ th[t].pc = "edge"
    /\ IF th[t].todo = {} THEN th' = [th EXCEPT ![t].pc = "take"] /\ UNCHANGED table
       ELSE \E x \in th[t].todo :
            IF Key(x[1], x[2]) = contested
            THEN th' = [th EXCEPT ![t].todo = @ \ {x}, ![t].own = @ + Weight(x[1], x[2])] /\ UNCHANGED table
            ELSE /\ table' = [table EXCEPT ![Key(x[1], x[2])] = @ + Weight(x[1], x[2])]
                 /\ th' = [th EXCEPT ![t].todo = @ \ {x},
                                     ![t].keys = IF table[Key(x[1], x[2])] = 0 THEN @ \cup {Key(x[1], x[2])} ELSE @]
    /\ UNCHANGED <<e, map, contested, next, sum, out, pos, arrived, single>>
AddSum(t) ==
    /\ th[t].pc = "sum"
    /\ IF Locked THEN sum' = sum + th[t].own /\ th' = [th EXCEPT ![t].pc = "wait"]
       ELSE sum' = sum /\ th' = [th EXCEPT ![t].tmp = sum, ![t].pc = "sum2"]
    /\ UNCHANGED <<e, map, contested, next, table, out, pos, arrived, single>>
AddSum2(t) ==
    /\ th[t].pc = "sum2"
    /\ sum' = th[t].tmp + th[t].own
    /\ th' = [th EXCEPT ![t].pc = "wait"]
    /\ UNCHANGED <<e, map, contested, next, table, out, pos, arrived, single>>
\* the barrier, and the one thread that inserts the contested pair behind it
Arrive(t) ==
    /\ th[t].pc = "wait"
    /\ arrived' = arrived + 1
    /\ th' = [th EXCEPT ![t].pc = "waiting"]
    /\ UNCHANGED <<e, map, contested, next, table, sum, out, pos, single>>
Single(t) ==
    /\ th[t].pc = "waiting" /\ arrived = Threads /\ ~single
    /\ single' = TRUE
    /\ IF contested # None /\ sum > 0
       THEN table' = [table EXCEPT ![contested] = @ + sum] /\ th' = [th EXCEPT ![t].keys = @ \cup {contested}]
       ELSE UNCHANGED <<table, th>>
    /\ UNCHANGED <<e, map, contested, next, sum, out, pos, arrived>>
Go(t) ==
    /\ th[t].pc = "waiting" /\ single
    /\ th' = [th EXCEPT ![t].pc = "write"]
    /\ UNCHANGED <<e, map, contested, next, table, sum, out, pos, arrived, single>>
\* reserve a slot at each end, then write both directions
First(t) ==
    /\ th[t].pc = "write" /\ th[t].keys # {}
    /\ \E p \in {CHOOSE x \in th[t].keys : TRUE} :
         IF Reserved
         THEN pos' = [pos EXCEPT ![p[1]] = @ + 1] /\ th' = [th EXCEPT ![t].a = pos[p[1]], ![t].pc = "second"]
         ELSE pos' = pos /\ th' = [th EXCEPT ![t].a = pos[p[1]], ![t].pc = "first2"]
    /\ UNCHANGED <<e, map, contested, next, table, sum, out, arrived, single>>
First2(t) ==
    /\ th[t].pc = "first2"
    /\ \E p \in {CHOOSE x \in th[t].keys : TRUE} : pos' = [pos EXCEPT ![p[1]] = th[t].a + 1]
    /\ th' = [th EXCEPT ![t].pc = "second"]
    /\ UNCHANGED <<e, map, contested, next, table, sum, out, arrived, single>>
Second(t) ==
    /\ th[t].pc = "second"
    /\ \E p \in {CHOOSE x \in th[t].keys : TRUE} :
         /\ pos' = [pos EXCEPT ![p[2]] = @ + 1]
         /\ out' = {x \in out : x[1] # <<p[1], th[t].a>> /\ x[1] # <<p[2], pos[p[2]]>>}
                   \cup {<<<<p[1], th[t].a>>, p[2], table[p]>>, <<<<p[2], pos[p[2]]>>, p[1], table[p]>>}
         /\ th' = [th EXCEPT ![t].keys = @ \ {p}, ![t].pc = "write"]
    /\ UNCHANGED <<e, map, contested, next, table, sum, arrived, single>>

Next == \E t \in 1 .. Threads : Take(t) \/ Edge(t) \/ AddSum(t) \/ AddSum2(t) \/ Arrive(t) \/ Single(t) \/ Go(t)
                                \/ First(t) \/ First2(t) \/ Second(t)
Spec == Init /\ [][Next]_vars

Done == \A t \in 1 .. Threads : th[t].pc = "write" /\ th[t].keys = {}
Between(p) == MapThenSumSet(LAMBDA x : IF {map[x[1]], map[x[2]]} = {p[1], p[2]} THEN Wgt(x) ELSE 0, e)
\* both directions of every adjacent pair of blocks, once, with its weight
Quotient ==
    Done => /\ \A p \in BP : LET w == Between(p) IN
                 /\ w > 0 => /\ Cardinality({x \in out : x[1][1] = p[1] /\ x[2] = p[2]}) = 1
                             /\ Cardinality({x \in out : x[1][1] = p[2] /\ x[2] = p[1]}) = 1
                 /\ \A x \in out : {x[1][1], x[2]} = {p[1], p[2]} => x[3] = w /\ w > 0
            /\ \A b \in Blocks : {x[1][2] : x \in {y \in out : y[1][1] = b}} = 0 .. pos[b] - 1
=============================================================================
