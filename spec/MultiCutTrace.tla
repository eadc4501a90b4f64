--------------------------- MODULE MultiCutTrace ---------------------------
(* Recorded multiterminal cuts of the real code against MultiCut.            *)
EXTENDS Graphs, Json, IOUtils
MC == INSTANCE MultiCut WITH N <- 1, K <- 1, WMax <- 1, Rules <- {}, BadRule <- FALSE, g <- 0, open <- 0, best <- 0
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, rejected
Init == i = 1 /\ rejected = 0

\* runs over a graph too large for the enumeration must agree with each other
Reference(rec) ==
    LET ex == {rec.runs[j].v : j \in {q \in 1 .. Len(rec.runs) : rec.runs[q].st = "ok" /\ rec.runs[q].inex = 0}}
    IN  IF ex = {} THEN 0 ELSE Min(ex)

Verdict(rec, opt, x) ==
    IF x.st # "ok" THEN "abnormal-" \o x.st
    ELSE IF x.inex = 0 /\ x.v # opt THEN "value-" \o ToString(x.v) \o "-optimum-" \o ToString(opt)
    ELSE IF x.v < opt THEN "below-optimum-" \o ToString(x.v) \o "-" \o ToString(opt)
    ELSE IF x.ws = 1
    THEN IF Len(x.sol) # rec.n THEN "solution-has-" \o ToString(Len(x.sol)) \o "-entries"
         ELSE LET s == [v \in Verts(rec.n) |-> x.sol[v + 1]]
                  t == [v \in Verts(rec.n) |-> rec.term[v + 1]]
              IN  IF ~MC!ValidSol(rec.n, rec.k, t, s) THEN "solution-moves-a-terminal"
                  ELSE IF MC!SolW(rec.e, s) # x.v THEN "solution-weighs-" \o ToString(MC!SolW(rec.e, s)) \o "-reported-" \o ToString(x.v)
                  ELSE ""
    ELSE ""

Step ==
    /\ i <= Len(Recs)
    /\ \E rec \in {Recs[i]} :
       \E opt \in {IF rec.big = 1 THEN Reference(rec)
                   ELSE MC!Opt(rec.n, rec.k, rec.e, [v \in Verts(rec.n) |-> rec.term[v + 1]])} :
       \E bad \in {{j \in 1 .. Len(rec.runs) : Verdict(rec, opt, rec.runs[j]) # ""}} :
           /\ \A j \in bad : PrintT("REJECT " \o rec.id \o " " \o rec.runs[j].c \o " " \o Verdict(rec, opt, rec.runs[j]))
           /\ rejected' = rejected + Cardinality(bad)
    /\ i' = i + 1
Next == Step
Accepted == PrintT("JUDGED " \o ToString(TLCGet("distinct") - 1) \o " of " \o ToString(Len(Recs)))
            /\ TLCGet("distinct") = Len(Recs) + 1
=============================================================================
