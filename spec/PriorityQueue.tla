--------------------------- MODULE PriorityQueue ---------------------------
(***************************************************************************)
(* The addressable priority queues of lib/data_structure/priority_queues.   *)
(*                                                                         *)
(* `q` is the abstract queue: a key for every contained node, -1 for the    *)
(* others.  Next to it run the three layouts the library uses:              *)
(*   h  binary heap: positions 1..n hold nodes, keys beside them;           *)
(*      deleting a node moves the last position into the hole and restores   *)
(*      the heap downwards and upwards                                       *)
(*   b  array of stacks indexed by key with a cursor on the largest key;     *)
(*      a deleted node is replaced by the last one of its stack              *)
(*   f  array of fifo queues indexed by key, node positions count from the   *)
(*      first insertion (offset = number of removals so far); a deleted node *)
(*      is replaced by the first one of its queue                            *)
(* Every call of the interface is one action.  The invariants say that all   *)
(* three answer as the abstract queue would.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
CONSTANTS Nodes, KMax, SiftUpAfterDelete, MaxOps
VARIABLES q, h, b, f, ops
Perms == Permutations(Nodes)
vars == <<q, h, b, f, ops>>
Keys == 0 .. KMax
None == -1
In(n) == q[n] # None
Members == {n \in Nodes : In(n)}
Top == Max({q[n] : n \in Members})

\* ------------------------------------------------------------------ heap
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
RECURSIVE Down(_, _), Up(_, _)
Down(s, p) ==
    LET l == 2 * p
        r == l + 1
    IN  IF r <= Len(s)
        THEN IF s[l][2] < s[p][2] /\ s[r][2] < s[p][2] THEN s
             ELSE LET c == IF s[l][2] > s[r][2] THEN l ELSE r IN Down(Swap(s, p, c), c)
        ELSE IF l <= Len(s) /\ s[p][2] < s[l][2] THEN Down(Swap(s, p, l), l) ELSE s
Up(s, p) == IF p > 1 /\ s[p \div 2][2] < s[p][2] THEN Up(Swap(s, p \div 2, p), p \div 2) ELSE s
Pos(s, n) == CHOOSE p \in 1 .. Len(s) : s[p][1] = n
HInsert(n, k) == Up(Append(h, <<n, k>>), Len(h) + 1)
HDelete(n) ==
    LET p == Pos(h, n)
        s == SubSeq(Swap(h, p, Len(h)), 1, Len(h) - 1)
    IN  IF p > Len(s) THEN s
        ELSE LET d == Down(s, p) IN IF SiftUpAfterDelete THEN Up(d, p) ELSE d
HDeleteMax == LET s == [h EXCEPT ![1] = h[Len(h)]]
                  t == SubSeq(s, 1, Len(h) - 1)
              IN  IF Len(t) > 1 THEN Down(t, 1) ELSE t
HChange(n, k) == LET p == Pos(h, n)
                     s == [h EXCEPT ![p] = <<n, k>>]
                 IN  IF k < h[p][2] THEN Down(s, p) ELSE IF k > h[p][2] THEN Up(s, p) ELSE h

\* --------------------------------------------------------------- buckets
\* cursor after something left bucket k of x
Cursor(x) == IF x.bk[x.max] # << >> THEN x.max
             ELSE LET below == {k \in Keys : k < x.max /\ x.bk[k] # << >>} IN IF below = {} THEN 0 ELSE Max(below)
BInsertTo(x, n, k) == [bk |-> [x.bk EXCEPT ![k] = Append(@, n)], idx |-> [x.idx EXCEPT ![n] = Len(x.bk[k]) + 1],
                       key |-> [x.key EXCEPT ![n] = k], max |-> Max({x.max, k})]
BDeleteFrom(x, n) ==
    LET k == x.key[n]
        p == x.idx[n]
        s == x.bk[k]
        last == s[Len(s)]
        y == [x EXCEPT !.bk[k] = SubSeq(Swap(s, p, Len(s)), 1, Len(s) - 1), !.idx = [[x.idx EXCEPT ![last] = p] EXCEPT ![n] = None]]
    IN  IF Len(s) = 1 /\ k = x.max THEN [y EXCEPT !.max = Cursor(y)] ELSE y
BMax == b.bk[b.max][Len(b.bk[b.max])]

\* ------------------------------------------------------------------ fifo
FInsertTo(x, n, k) == [bk |-> [x.bk EXCEPT ![k] = Append(@, n)], idx |-> [x.idx EXCEPT ![n] = Len(x.bk[k]) + x.off[k] + 1],
                       off |-> x.off, key |-> [x.key EXCEPT ![n] = k], max |-> Max({x.max, k})]
FDeleteFrom(x, n) ==
    LET k == x.key[n]
        p == x.idx[n] - x.off[k]
        s == x.bk[k]
        y == [x EXCEPT !.bk[k] = Tail(Swap(s, p, 1)), !.idx = [[x.idx EXCEPT ![s[1]] = x.idx[n]] EXCEPT ![n] = None], !.off[k] = @ + 1]
    IN  IF Len(s) = 1 /\ k = x.max THEN [y EXCEPT !.max = Cursor(y)] ELSE y
FMax == f.bk[f.max][1]

\* --------------------------------------------------------------- actions
Init == /\ q = [n \in Nodes |-> None] /\ h = << >> /\ ops = 0
        /\ b = [bk |-> [k \in Keys |-> << >>], idx |-> [n \in Nodes |-> None], key |-> [n \in Nodes |-> 0], max |-> 0]
        /\ f = [bk |-> [k \in Keys |-> << >>], idx |-> [n \in Nodes |-> None], off |-> [k \in Keys |-> 0],
                key |-> [n \in Nodes |-> 0], max |-> 0]
More == ops < MaxOps /\ ops' = ops + 1
Insert(n, k) == More /\ ~In(n) /\ q' = [q EXCEPT ![n] = k] /\ h' = HInsert(n, k) /\ b' = BInsertTo(b, n, k) /\ f' = FInsertTo(f, n, k)
Delete(n) == More /\ In(n) /\ q' = [q EXCEPT ![n] = None] /\ h' = HDelete(n) /\ b' = BDeleteFrom(b, n) /\ f' = FDeleteFrom(f, n)
Change(n, k) == More /\ In(n) /\ q' = [q EXCEPT ![n] = k] /\ h' = HChange(n, k)
                /\ b' = BInsertTo(BDeleteFrom(b, n), n, k) /\ f' = FInsertTo(FDeleteFrom(f, n), n, k)
\* deleteMax of the heap; the other layouts may pick another node of the same
\* key, here they drop the same one so that one abstract queue serves all
DeleteMax == More /\ Members # {} /\ LET n == h[1][1] IN
             q' = [q EXCEPT ![n] = None] /\ h' = HDeleteMax /\ b' = BDeleteFrom(b, n) /\ f' = FDeleteFrom(f, n)
\* ... and deleteMax as the bucket layouts do it
DeleteMaxB == More /\ Members # {} /\ LET n == BMax IN
             q' = [q EXCEPT ![n] = None] /\ h' = HDelete(n) /\ b' = BDeleteFrom(b, n) /\ f' = FDeleteFrom(f, n)
DeleteMaxF == More /\ Members # {} /\ LET n == FMax IN
             q' = [q EXCEPT ![n] = None] /\ h' = HDelete(n) /\ b' = BDeleteFrom(b, n) /\ f' = FDeleteFrom(f, n)
Next == (\E n \in Nodes : Delete(n) \/ \E k \in Keys : Insert(n, k) \/ Change(n, k)) \/ DeleteMax \/ DeleteMaxB \/ DeleteMaxF
Spec == Init /\ [][Next]_vars
\* offsets and the operation count do not influence behaviour
View == <<q, h, b, [f EXCEPT !.off = 0, !.idx = [n \in Nodes |-> IF f.idx[n] = None THEN None ELSE f.idx[n] - f.off[f.key[n]]]]>>

\* ------------------------------------------------------------ invariants
HeapRefines == /\ Len(h) = Cardinality(Members)
               /\ \A n \in Members : \E p \in 1 .. Len(h) : h[p] = <<n, q[n]>>
HeapOrder == \A p \in 2 .. Len(h) : h[p \div 2][2] >= h[p][2]
HeapTop == Members # {} => h[1][2] = Top
BucketRefines == \A n \in Nodes : IF In(n) THEN b.key[n] = q[n] /\ b.bk[q[n]][b.idx[n]] = n ELSE b.idx[n] = None
BucketSizes == \A k \in Keys : Len(b.bk[k]) = Cardinality({n \in Members : q[n] = k}) /\ Len(f.bk[k]) = Len(b.bk[k])
FifoRefines == \A n \in Nodes : IF In(n) THEN f.key[n] = q[n] /\ f.bk[q[n]][f.idx[n] - f.off[q[n]]] = n ELSE f.idx[n] = None
CursorTop == Members # {} => b.max = Top /\ f.max = Top /\ q[BMax] = Top /\ q[FMax] = Top
=============================================================================
