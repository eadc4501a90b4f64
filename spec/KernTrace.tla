----------------------------- MODULE KernTrace -----------------------------
(* Single steps of branch and reduce on the real code: every reduction, flow,  *)
(* branching and local search step against MultiCut.  A state is a quotient of *)
(* the graph given (at: vertex -> vertex of the quotient), its edges, and the  *)
(* weight deleted so far; its optimum is that weight plus the lightest          *)
(* multiterminal cut of what is left.                                          *)
EXTENDS Graphs, Json, IOUtils
MC == INSTANCE MultiCut WITH N <- 1, K <- 1, WMax <- 1, Rules <- {}, BadRule <- FALSE, g <- 0, open <- 0, best <- 0
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, rejected
Init == i = 1 /\ rejected = 0
Inf == 2000000000

TermOf(rec, s) == [x \in Verts(s.n) |->
    LET T == {v \in Verts(rec.n) : rec.term[v + 1] >= 0 /\ s.at[v + 1] = x}
    IN  IF T = {} THEN -1 ELSE rec.term[(CHOOSE v \in T : TRUE) + 1]]
\* no two terminals in one vertex
Apart(rec, s) == \A u, v \in Verts(rec.n) :
    (rec.term[u + 1] >= 0 /\ rec.term[v + 1] >= 0 /\ s.at[u + 1] = s.at[v + 1]) => rec.term[u + 1] = rec.term[v + 1]
OptS(rec, s) == IF Apart(rec, s) THEN s.del + MC!Opt(s.n, rec.k, s.e, TermOf(rec, s)) ELSE Inf

\* the state is the quotient of the graph under at, where only edges that run
\* between vertices next to terminals may have been deleted
Pair(s, x) == LET a == s.at[x[1] + 1]  b == s.at[x[2] + 1] IN IF a < b THEN <<a, b>> ELSE <<b, a>>
Quotient(rec, s) == FoldLeft(LAMBDA f, x: LET p == Pair(s, x) IN
                                IF p[1] = p[2] THEN f ELSE IF p \in DOMAIN f THEN [f EXCEPT ![p] = @ + x[3]] ELSE f @@ (p :> x[3]),
                             << >>, rec.e)
IsQuotient(rec, s) ==
    /\ s.bad = 0
    /\ Len(s.at) = rec.n
    /\ {s.at[v] : v \in 1 .. rec.n} = Verts(s.n)
    \* (an edge deleted in a branch may be inside a vertex later)
    /\ s.del <= FoldLeft(LAMBDA a, x: a + x[3], 0, rec.e) - FoldLeft(LAMBDA a, x: a + x[3], 0, s.e)
    /\ \E q \in {TLCEval(Quotient(rec, s))} :
         /\ \A j \in 1 .. Len(s.e) : <<s.e[j][1], s.e[j][2]>> \in DOMAIN q /\ q[<<s.e[j][1], s.e[j][2]>>] >= s.e[j][3]
\* later states are coarser
Coarser(a, b) == \A u, v \in 1 .. Len(a.at) : a.at[u] = a.at[v] => b.at[u] = b.at[v]

PartW(rec, s) == FoldLeft(LAMBDA a, x: IF s.part[x[1] + 1] # s.part[x[2] + 1] THEN a + x[3] ELSE a, 0, rec.e)

SolOf(rec, sol) == [v \in Verts(rec.n) |-> sol[v + 1]]
Term0(rec) == [v \in Verts(rec.n) |-> rec.term[v + 1]]
ValidSol(rec, sol) == Len(sol) = rec.n /\ MC!ValidSol(rec.n, rec.k, Term0(rec), SolOf(rec, sol))

Bounds(s, o) ==
    IF s.lo < Inf /\ s.lo > o THEN "lower-bound-" \o ToString(s.lo) \o "-optimum-" \o ToString(o)
    ELSE IF s.hi < o THEN "upper-bound-" \o ToString(s.hi) \o "-optimum-" \o ToString(o)
    ELSE ""

\* o is the optimum before the step (smaller than the bound ub), a the state before
Reduced(rec, a, s, o) ==
    IF ~IsQuotient(rec, s) THEN "not-a-quotient"
    ELSE IF ~Coarser(a, s) THEN "splits-a-vertex"
    ELSE LET q == OptS(rec, s) IN
         IF q # o THEN "optimum-" \o ToString(o) \o "-becomes-" \o ToString(q)
         ELSE IF Bounds(s, o) # "" THEN Bounds(s, o)
         ELSE IF s.step # "isolating" THEN ""
         ELSE IF ~ValidSol(rec, s.part) THEN "partition-moves-a-terminal"
         ELSE IF PartW(rec, s) > s.hi THEN "partition-weighs-" \o ToString(PartW(rec, s)) \o "-bound-" \o ToString(s.hi)
         ELSE ""

\* what remains after branching contains a solution as good, or one was found
\* (local search may find better ones: it may split the vertices contracted at
\* the start)
Branched(rec, a, s, o) ==
    LET C == s.child
        bad == {j \in 1 .. Len(C) : ~IsQuotient(rec, C[j]) \/ ~Coarser(a, C[j])}
    IN  IF bad # {} THEN "child-not-a-quotient"
        ELSE LET opts == TLCEval([j \in 1 .. Len(C) |-> OptS(rec, C[j])])
                 m == FoldLeft(LAMBDA x, y: IF y < x THEN y ELSE x, s.best, opts)
             IN  IF m > o THEN "optimum-" \o ToString(o) \o "-lost-left-" \o ToString(m)
                 ELSE IF \E j \in 1 .. Len(C) : opts[j] < o THEN "child-below-optimum-" \o ToString(o)
                 ELSE IF \E j \in 1 .. Len(C) : opts[j] < s.best /\ C[j].lo < Inf /\ C[j].lo > opts[j] THEN "child-lower-bound"
                 ELSE IF s.sol # << >> /\ s.best < rec.ub
                 THEN IF ~ValidSol(rec, s.sol) THEN "solution-moves-a-terminal"
                      ELSE IF MC!SolW(rec.e, SolOf(rec, s.sol)) # s.best THEN "solution-weight"
                      ELSE ""
                 ELSE ""

Searched(rec, s) ==
    IF ~ValidSol(rec, s.sol) THEN "search-moves-a-terminal"
    ELSE IF MC!SolW(rec.e, SolOf(rec, s.from)) - MC!SolW(rec.e, SolOf(rec, s.sol)) # s.imp THEN "search-gain"
    ELSE IF s.imp < 0 THEN "search-worse"
    ELSE ""

\* first step that is wrong
StepBad(rec, o, j) ==
    LET s == rec.steps[j]
        why == CASE s.step = "branch" -> Branched(rec, rec.steps[j - 1], s, o)
                 [] s.step = "search" -> Searched(rec, s)
                 [] s.step = "end" -> "terminals-merged"
                 [] OTHER -> Reduced(rec, rec.steps[j - 1], s, o)
    IN  IF why = "" THEN "" ELSE (IF s.step = "branch" THEN s.how ELSE s.step) \o " " \o why

Verdict(rec) ==
    IF rec.st # "ok" THEN "run abnormal-" \o rec.st
    ELSE IF ~IsQuotient(rec, rec.steps[1]) THEN "start not-a-quotient"
    ELSE LET o == TLCEval(OptS(rec, rec.steps[1])) IN
         FoldLeft(LAMBDA acc, j: IF acc # "" THEN acc ELSE StepBad(rec, o, j), "", [j \in 1 .. Len(rec.steps) - 1 |-> j + 1])

Step ==
    /\ i <= Len(Recs)
    /\ \E rec \in {Recs[i]} : \E w \in {Verdict(rec)} :
        /\ w # "" => PrintT("REJECT " \o rec.id \o " " \o w)
        /\ rejected' = rejected + (IF w = "" THEN 0 ELSE 1)
    /\ i' = i + 1
Next == Step
Accepted == PrintT("JUDGED " \o ToString(TLCGet("distinct") - 1) \o " of " \o ToString(Len(Recs)))
            /\ TLCGet("distinct") = Len(Recs) + 1
=============================================================================
