----------------------------- MODULE ToolTrace -----------------------------
(* What the command line tools print and write for given files, against the   *)
(* definitions of Graphs, MinCut, MultiCut and Terminals.                     *)
EXTENDS Graphs, Json, IOUtils
M == INSTANCE MinCut WITH N <- 2, WMax <- 1, Slack <- 0, Approx <- FALSE,
        n <- 0, e <- <<>>, blk <- 0, best <- 0, side <- 0, done <- FALSE
MC == INSTANCE MultiCut WITH N <- 1, K <- 1, WMax <- 1, Rules <- {}, BadRule <- FALSE, g <- 0, open <- 0, best <- 0
T == INSTANCE Terminals WITH N <- 2, K <- 1, B <- 1, Overlap <- FALSE, adj <- 0, ts <- 0, mapping <- 0, cur <- 0, queue <- 0, size <- 0
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, rejected
Init == i = 1 /\ rejected = 0

MinCutTool(rec) ==
    LET lam == MinCutHB(rec.n, rec.e)
    IN  IF Len(rec.v) # rec.its THEN ToString(Len(rec.v)) \o "-results-instead-of-" \o ToString(rec.its)
        ELSE IF \E j \in 1 .. Len(rec.v) : ~M!ValueOK(rec.gk, lam, rec.unit = 1, rec.v[j])
        THEN "value-" \o ToString(rec.v) \o "-mincut-" \o ToString(lam)
        ELSE IF rec.rn # rec.n \/ rec.rm # Len(rec.e) THEN "size-of-the-graph"
        ELSE IF rec.want = "side"
        THEN IF Len(rec.side) # rec.n THEN "side-has-" \o ToString(Len(rec.side)) \o "-entries"
             ELSE IF ~M!SideOK(rec.n, rec.e, rec.v[rec.its], {v \in Verts(rec.n) : rec.side[v + 1] = 1}) THEN "side-does-not-realise-" \o ToString(rec.v[rec.its])
             ELSE ""
        ELSE ""
MultiTool(rec) ==
    LET t == [v \in Verts(rec.n) |-> rec.term[v + 1]]
        opt == MC!Opt(rec.n, rec.k, rec.e, t)
    IN  IF rec.v # <<opt>> THEN "value-" \o ToString(rec.v) \o "-optimum-" \o ToString(opt)
        ELSE IF rec.want # "side" THEN ""
        ELSE IF Len(rec.side) # rec.n THEN "solution-has-" \o ToString(Len(rec.side)) \o "-entries"
        ELSE LET s == [v \in Verts(rec.n) |-> rec.side[v + 1]]
             IN  IF ~MC!ValidSol(rec.n, rec.k, t, s) THEN "solution-moves-a-terminal"
                 ELSE IF MC!SolW(rec.e, s) # opt THEN "solution-weighs-" \o ToString(MC!SolW(rec.e, s)) ELSE ""

\* number of changes of the minimum cut along a file of insertions and deletions,
\* looked at after every one of them or, in batches, after the last of a time
Minus(e, u, v) == SelectSeq(e, LAMBDA x: {x[1], x[2]} # {u, v})
DynTool(rec) ==
    LET Looks(j) == rec.batch = 0 \/ j = Len(rec.ops) \/ rec.ts[j + 1] # rec.ts[j]
        f == FoldLeft(LAMBDA a, op:
                 LET e2 == TLCEval(IF op[3] > 0 THEN Append(a.e, op) ELSE Minus(a.e, op[1], op[2]))
                     l2 == TLCEval(IF Looks(a.j) THEN MinCutHB(rec.n, e2) ELSE a.lam)
                 IN  [e |-> e2, lam |-> l2, j |-> a.j + 1, ch |-> a.ch + (IF l2 # a.lam THEN 1 ELSE 0)],
                 [e |-> rec.e, lam |-> MinCutHB(rec.n, rec.e), j |-> 1, ch |-> 0], rec.ops)
        ins == Len(SelectSeq(rec.ops, LAMBDA op: op[3] > 0))
    IN  IF rec.v # <<f.ch, ins, Len(rec.ops) - ins>> THEN ToString(rec.v) \o "-instead-of-" \o ToString(<<f.ch, ins, Len(rec.ops) - ins>>) ELSE ""

\* the largest component, vertices in their order
ComponentTool(rec) ==
    LET C == Components(rec.n, rec.e)
        big == Max({Cardinality(c) : c \in C})
        Img(c) == LET num == [v \in c |-> Cardinality({u \in c : u < v})]
                  IN  {<<num[x[1]], num[x[2]], x[3]>> : x \in {y \in ToSet(rec.e) : y[1] \in c}}
        out == {<<x[1], x[2], x[3]>> : x \in ToSet(rec.oe)}
    IN  IF rec.rn # big THEN "component-of-" \o ToString(rec.rn) \o "-instead-of-" \o ToString(big)
        ELSE IF ~\E c \in C : Cardinality(c) = big /\ Len(rec.oe) = Cardinality(Img(c))
                              /\ \A x \in Img(c) : <<x[1], x[2], x[3]>> \in out \/ <<x[2], x[1], x[3]>> \in out
        THEN "not-a-component" ELSE ""

TermTool(rec) ==
    LET m == [v \in Verts(rec.n) |-> rec.map[v + 1]]
        a == AdjSets(rec.n, rec.e)
        \* the first vertex of an area is not recorded: some vertex of it
        Picks == {t \in [1 .. rec.num -> Verts(rec.n)] : \A j \in 1 .. rec.num : m[t[j]] = j - 1}
        b == IF rec.pct > 0 THEN Max({1, (((rec.n \div rec.num) * rec.pct) \div 100)}) ELSE Max({1, rec.b})
        Lst(t) == [j \in 1 .. rec.num |-> t[j]]
    IN  IF Len(rec.map) # rec.n THEN "entries"
        ELSE IF rec.num # rec.k THEN ToString(rec.num) \o "-terminals-instead-of-" \o ToString(rec.k)
        ELSE IF rec.how \notin {"pre", "order"} /\ \E j \in 0 .. rec.num - 1 : ~\E v \in Verts(rec.n) : m[v] = j THEN "a-terminal-without-vertices"
        ELSE IF rec.how = "pre"
        THEN IF rec.map # rec.ids THEN "not-the-blocks-of-the-file" ELSE ""
        ELSE IF rec.how = "order"
        THEN IF \E v \in Verts(rec.n) : m[v] # (IF rec.pos[v + 1] <= b THEN rec.ids[v + 1] ELSE -1) THEN "not-the-first-vertices-of-the-file" ELSE ""
        ELSE IF ~\E t \in Picks :
                  /\ T!AreasOK(a, Lst(t), b, m)
                  /\ CASE rec.how = "id" -> Lst(t) = rec.ids
                       [] rec.how = "top" -> T!TopOK(rec.n, rec.e, Lst(t), rec.k)
                       [] rec.how = "distant" -> T!DistantOK(a, Lst(t))
                       [] OTHER -> TRUE
        THEN "not-the-terminals-asked-for" ELSE ""
Verdict(rec) ==
    IF rec.st # "ok" THEN rec.c \o " abnormal-" \o rec.st
    ELSE LET w == CASE rec.kind = "mincut" -> MinCutTool(rec) [] rec.kind = "multi" -> MultiTool(rec)
                    [] rec.kind = "dynamic" -> DynTool(rec) [] rec.kind = "component" -> ComponentTool(rec)
                    [] OTHER -> TermTool(rec)
         IN  IF w = "" THEN "" ELSE rec.c \o " " \o w

Step ==
    /\ i <= Len(Recs)
    /\ \E rec \in {Recs[i]} : \E w \in {Verdict(rec)} :
        /\ w # "" => PrintT("REJECT " \o rec.id \o " " \o w)
        /\ rejected' = rejected + (IF w = "" THEN 0 ELSE 1)
    /\ i' = i + 1
Next == Step
Accepted == PrintT("JUDGED " \o ToString(TLCGet("distinct") - 1) \o " of " \o ToString(Len(Recs)))
            /\ TLCGet("distinct") = Len(Recs) + 1
=============================================================================
