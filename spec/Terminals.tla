----------------------------- MODULE Terminals -----------------------------
(* Terminals of a multiterminal cut and the areas grown around them: from one  *)
(* terminal after the other, breadth first over vertices that belong to no     *)
(* other area and are no terminal, until the area has B vertices or cannot     *)
(* grow.  Overlap = TRUE grows over the areas of others.                       *)
EXTENDS Graphs
CONSTANTS N, K, B, Overlap
VARIABLES adj, ts, mapping, cur, queue, size
vars == <<adj, ts, mapping, cur, queue, size>>
NoArea == -1
V == Verts(N)
Pairs == {p \in V \X V : p[1] < p[2]}
AdjOf(s) == [v \in V |-> {u \in V : <<u, v>> \in s \/ <<v, u>> \in s}]
Injections == {t \in [1 .. K -> V] : \A a, b \in 1 .. K : t[a] = t[b] => a = b}

\* vertices by distance from S: a sequence of disjoint sets
RECURSIVE Layers(_, _, _)
Layers(a, seen, front) ==
    IF front = {} THEN << >>
    ELSE LET nxt == TLCEval((UNION {a[v] : v \in front}) \ seen)
         IN  <<front>> \o Layers(a, TLCEval(seen \cup nxt), nxt)
From(a, S) == Layers(a, S, S)

\* what an area has to be: it starts at its terminal, is taken layer by layer from
\* what earlier areas and other terminals leave, and stops at b vertices only
AreaOK(a, t, b, m, j) ==
    LET free == {v \in DOMAIN m : (m[v] = NoArea \/ m[v] >= j - 1) /\ \A x \in 1 .. Len(t) : x = j \/ t[x] # v}
        R == {v \in DOMAIN m : m[v] = j - 1}
        L == TLCEval(From([v \in DOMAIN m |-> a[v] \cap free], {t[j]}))
        all == UNION {L[d] : d \in 1 .. Len(L)}
    IN  /\ t[j] \in R /\ R \subseteq all
        /\ Cardinality(R) = Min({b, Cardinality(all)})
        /\ \A d1, d2 \in 1 .. Len(L) : d1 < d2 /\ L[d2] \cap R # {} => L[d1] \subseteq R
AreasOK(a, t, b, m) == /\ \A v \in DOMAIN m : m[v] \in {NoArea} \cup 0 .. Len(t) - 1
                       /\ \A j \in 1 .. Len(t) : AreaOK(a, t, b, m, j)

\* the k heaviest vertices by degree
TopOK(n, e, t, k) == LET d == TLCEval([v \in Verts(n) |-> WDegree(e, v)])
                     IN  /\ Len(t) = k /\ Cardinality(ToSet(t)) = k /\ ToSet(t) \subseteq Verts(n)
                         /\ \A u \in ToSet(t) : \A v \in Verts(n) \ ToSet(t) : d[u] >= d[v]
\* every terminal is as far as possible from a start and from those before it
DistantOK(a, t) == \E r \in DOMAIN a : \A j \in 1 .. Len(t) :
    LET L == From(a, {r} \cup {t[x] : x \in 1 .. j - 1}) IN t[j] \in L[Len(L)]

Init == /\ \E s \in SUBSET Pairs : adj = AdjOf(s)
        /\ ts \in Injections
        /\ mapping = [v \in V |-> IF \E j \in 1 .. K : ts[j] = v THEN (CHOOSE j \in 1 .. K : ts[j] = v) - 1 ELSE NoArea]
        /\ cur = 1 /\ queue = <<ts[1]>> /\ size = 1
Mine(v) == IF Overlap THEN mapping[v] # cur - 1 /\ v \notin ToSet(ts) ELSE mapping[v] = NoArea
Claim == /\ cur <= K /\ queue # << >> /\ size < B
         /\ \E v \in {u \in adj[queue[1]] : Mine(u)} :
               mapping' = [mapping EXCEPT ![v] = cur - 1] /\ queue' = Append(queue, v)
         /\ size' = size + 1 /\ UNCHANGED <<adj, ts, cur>>
Pop == /\ cur <= K /\ queue # << >> /\ size < B
       /\ ~\E u \in adj[queue[1]] : Mine(u)
       /\ queue' = Tail(queue) /\ UNCHANGED <<adj, ts, mapping, cur, size>>
Switch == /\ cur <= K /\ (queue = << >> \/ size >= B)
          /\ cur' = cur + 1 /\ size' = 1
          /\ queue' = IF cur < K THEN <<ts[cur + 1]>> ELSE << >>
          /\ UNCHANGED <<adj, ts, mapping>>
Next == Claim \/ Pop \/ Switch
Spec == Init /\ [][Next]_vars
AreasAtEnd == cur > K => AreasOK(adj, ts, B, mapping)
=============================================================================
