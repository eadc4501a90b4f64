------------------------------ MODULE MultiCut ------------------------------
(***************************************************************************)
(* Multiterminal cuts: terminals are given by term[v] in 0..k-1 (or -1), a     *)
(* solution labels every vertex with a terminal, terminals with their own;      *)
(* its weight is that of the edges with differently labelled ends.              *)
(*                                                                           *)
(* The machine is branch and reduce: a set of open subproblems (a labelling of  *)
(* the vertices by representatives plus the deleted edges), reduction rules     *)
(* that contract pairs, branching at a vertex next to terminals, and the best   *)
(* solution found.  Any order of the steps is allowed: this is every schedule.  *)
(***************************************************************************)
EXTENDS Graphs

\* --- optimum ----------------------------------------------------------------
SolW(e, s) == FoldLeft(LAMBDA a, x: IF s[x[1]] # s[x[2]] THEN a + x[3] ELSE a, 0, e)
ValidSol(n, k, term, s) ==
    /\ DOMAIN s = Verts(n)
    /\ \A v \in Verts(n) : s[v] \in 0 .. (k - 1) /\ (term[v] >= 0 => s[v] = term[v])

\* depth first over the free vertices in the sequence f, W is the weight matrix
RECURSIVE Dfs(_, _, _, _, _, _)
Dfs(W, k, f, lab, cost, best) ==
    IF cost >= best THEN best
    ELSE IF f = << >> THEN cost
    ELSE LET v  == Head(f)
             D  == DOMAIN lab
             tot == TLCEval([t \in 0 .. (k - 1) |-> FoldSet(LAMBDA u, a: IF lab[u] = t THEN a + W[v][u] ELSE a, 0, D)])
             all == FoldSet(LAMBDA t, a: a + tot[t], 0, 0 .. (k - 1))
             order == SetToSortSeq(0 .. (k - 1), LAMBDA a, b: tot[a] > tot[b])
         IN  FoldLeft(LAMBDA b, t: Dfs(W, k, Tail(f), TLCEval([lab EXCEPT ![v] = t]), cost + all - tot[t], b),
                      best, order)

\* heaviest free vertices first: a big lower bound early
Opt(n, k, e, term) ==
    LET W == TLCEval(Matrix(n, e))
        deg == TLCEval([v \in Verts(n) |-> RowSum(W[v], Verts(n))])
        f == SetToSortSeq({v \in Verts(n) : term[v] < 0}, LAMBDA a, b: deg[a] > deg[b])
        base == FoldLeft(LAMBDA a, x: IF term[x[1]] >= 0 /\ term[x[2]] >= 0 /\ term[x[1]] # term[x[2]] THEN a + x[3] ELSE a, 0, e)
    IN  Dfs(W, k, f, term, base, 2147483647)

BruteOpt(n, k, e, term) ==
    Min({SolW(e, s) : s \in {q \in [Verts(n) -> 0 .. (k - 1)] : \A v \in Verts(n) : term[v] >= 0 => q[v] = term[v]}})

\* --- the machine -------------------------------------------------------------
CONSTANTS N, K, WMax, Rules, BadRule
VARIABLES g, open, best
vars == <<g, open, best>>
T0 == [v \in Verts(N) |-> IF v < K THEN v ELSE -1]
PSeq == SetToSeq({p \in Verts(N) \X Verts(N) : p[1] < p[2]})
Pairs == {PSeq[i] : i \in 1 .. Len(PSeq)}

\* a subproblem: b maps vertices to representatives (terminals represent
\* themselves), del is the set of deleted pairs of original vertices
Edges(p) == {q \in Pairs \ p.del : g[q] > 0 /\ p.b[q[1]] # p.b[q[2]]}
QW(p, u, v) == FoldSet(LAMBDA q, a: IF {p.b[q[1]], p.b[q[2]]} = {u, v} THEN a + g[q] ELSE a, 0, Edges(p))
Reps(p) == {p.b[v] : v \in Verts(N)}
Deg(p, u) == FoldSet(LAMBDA v, a: a + QW(p, u, v), 0, Reps(p) \ {u})
Nbrs(p, u) == {v \in Reps(p) \ {u} : QW(p, u, v) > 0}
DelW(p) == FoldSet(LAMBDA q, a: a + g[q], 0, p.del)
Sols(p) == {s \in [Reps(p) -> Verts(K)] : \A t \in Verts(K) : s[p.b[t]] = t}
SW(p, s) == FoldSet(LAMBDA q, a: IF s[p.b[q[1]]] # s[p.b[q[2]]] THEN a + g[q] ELSE a, 0, Edges(p))
OptP(p) == LET S == Sols(p) IN IF S = {} THEN 1000000 ELSE DelW(p) + Min({SW(p, s) : s \in S})
Merge(p, u, v) == [p EXCEPT !.b = [x \in Verts(N) |-> IF p.b[x] = v THEN u ELSE p.b[x]]]
\* delete the edges between u and the vertices of A
Delete(p, u, A) == [p EXCEPT !.del = @ \cup {q \in Edges(p) : \E a \in A : {p.b[q[1]], p.b[q[2]]} = {u, a}}]
IsTerm(p, u) == \E t \in Verts(K) : p.b[t] = u
Terms(p) == {p.b[t] : t \in Verts(K)}
\* lightest cut separating u from the vertices of A
IsoCut(p, u, A) == Min({FoldSet(LAMBDA q, a: IF (p.b[q[1]] \in S) # (p.b[q[2]] \in S) THEN a + g[q] ELSE a, 0, Edges(p))
                        : S \in {X \in SUBSET Reps(p) : u \in X /\ X \cap A = {}}})
IsoSides(p, u, A) == {X \in SUBSET Reps(p) : u \in X /\ X \cap A = {} /\
                        FoldSet(LAMBDA q, a: IF (p.b[q[1]] \in X) # (p.b[q[2]] \in X) THEN a + g[q] ELSE a, 0, Edges(p)) = IsoCut(p, u, A)}

\* u may be merged into v (u not a terminal, v any vertex; "noi": any two)
RuleOK(r, p, u, v) ==
    CASE r = "lowdeg" -> ~IsTerm(p, u) /\ v \in Nbrs(p, u) /\ Cardinality(Nbrs(p, u)) <= 2
                         /\ \A x \in Nbrs(p, u) : QW(p, u, x) <= QW(p, u, v)
      [] r = "heavy"  -> ~IsTerm(p, u) /\ v \in Nbrs(p, u) /\ 2 * QW(p, u, v) >= Deg(p, u)
      [] r = "hiterm" -> /\ ~IsTerm(p, u) /\ IsTerm(p, v) /\ v \in Nbrs(p, u)
                         /\ \A x \in Terms(p) \ {v} :
                              QW(p, u, v) > QW(p, u, x) + FoldSet(LAMBDA y, a: IF IsTerm(p, y) THEN a ELSE a + QW(p, u, y), 0, Nbrs(p, u))
      [] r = "iso"    -> u # v /\ ~IsTerm(p, u) /\ IsTerm(p, v) /\ \E X \in IsoSides(p, v, Terms(p) \ {v}) : u \in X
      [] r = "flow"   -> u # v /\ ~IsTerm(p, u) /\ ~IsTerm(p, v) /\ \E X \in IsoSides(p, v, Terms(p)) : u \in X
      [] r = "noi"    -> u # v /\ IsoCut(p, u, {v}) >= best - DelW(p)
      [] r \in {"triangle", "paper"} ->
            /\ ~IsTerm(p, u) /\ ~IsTerm(p, v) /\ v \in Nbrs(p, u)
            /\ \E x \in (Nbrs(p, u) \cap Nbrs(p, v)) \ Terms(p) :
                 /\ Deg(p, u) <= 2 * (QW(p, u, v) + QW(p, u, x))
                 /\ Deg(p, v) <= 2 * (QW(p, u, v) + QW(p, v, x))
                 \* the published rule lacks the case of three blocks
                 /\ \/ r = "paper"
                    \/ Deg(p, u) + Deg(p, v) <= 3 * QW(p, u, v) + 2 * (QW(p, u, x) + QW(p, v, x))
      [] r = "equal"  -> /\ u # v /\ ~IsTerm(p, u) /\ ~IsTerm(p, v)
                         /\ Nbrs(p, u) # {}
                         /\ \A x \in Reps(p) \ {u, v} : QW(p, u, x) = QW(p, v, x)
      [] r = "wrong"  -> ~IsTerm(p, u) /\ v \in Nbrs(p, u) /\ \A x \in Nbrs(p, u) : QW(p, u, x) <= QW(p, u, v)

Start == [b |-> [v \in Verts(N) |-> v], del |-> {}]
Init ==
    /\ g \in [Pairs -> 0 .. WMax]
    /\ open = {Start}
    /\ best = FoldSet(LAMBDA q, a: a + g[q], 0, Pairs)   \* cut everything

\* a triangle whose vertices have edges to the terminals (the free vertices
\* are K .. N-1)
InitTri ==
    /\ \E f \in [{q \in Pairs : q[1] < K /\ q[2] >= K} -> 0 .. WMax] :
          g = [q \in Pairs |-> IF q \in DOMAIN f THEN f[q] ELSE IF q[1] >= K THEN 1 ELSE 0]
    /\ open = {Start}
    /\ best = FoldSet(LAMBDA q, a: a + g[q], 0, Pairs)
Reduce(p) ==
    \E r \in Rules : \E u, v \in Reps(p) :
        /\ u # v
        /\ RuleOK(r, p, u, v)
        /\ open' = (open \ {p}) \cup {IF IsTerm(p, u) THEN Merge(p, u, v) ELSE Merge(p, v, u)}
        /\ UNCHANGED <<g, best>>

\* edges between terminals are always cut
CutTerms(p) == FoldSet(LAMBDA t, q: Delete(q, t, Terms(q) \ {t}), p, Terms(p))

Branch(p) ==
    /\ best' = best /\ g' = g
    /\ \E u \in Reps(p) \ Terms(p) :
         \E A \in {Nbrs(p, u) \cap Terms(p)} :
           /\ A # {}
           /\ open' = (open \ {p}) \cup {Merge(Delete(p, u, A \ {t}), t, u) : t \in A} \cup
                      (IF Terms(p) \subseteq A THEN {} ELSE {Delete(p, u, A)})

Drop(p) == /\ OptP(p) >= best     \* the code uses a lower bound of it
           /\ open' = open \ {p} /\ UNCHANGED <<g, best>>

Solve(p) == /\ \/ Edges(CutTerms(p)) = {} /\ Cardinality(Terms(p)) = K
            /\ best' = (IF DelW(CutTerms(p)) < best THEN DelW(CutTerms(p)) ELSE best)
            /\ open' = open \ {p} /\ UNCHANGED g

Next == \E p \in open : Reduce(p) \/ Branch(p) \/ Drop(p) \/ Solve(p)
OnlyReduce == \E p \in open : Reduce(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

E0 == SelectSeq([i \in 1 .. Len(PSeq) |-> <<PSeq[i][1], PSeq[i][2], g[PSeq[i]]>>], LAMBDA x: x[3] > 0)
TheOpt == BruteOpt(N, K, E0, T0)
NeverLost == best = TheOpt \/ \E p \in open : OptP(p) = TheOpt
NeverBelow == best >= TheOpt /\ \A p \in open : OptP(p) >= TheOpt
AtEnd == open = {} => best = TheOpt
DfsIsBrute == open = {Start} => Opt(N, K, E0, T0) = TheOpt
Termination == <>(open = {})
=============================================================================
