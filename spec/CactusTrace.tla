---------------------------- MODULE CactusTrace ----------------------------
(* Observed cacti and best cuts of the real code against Cactus.             *)
EXTENDS Cactus, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, rejected
Init == i = 1 /\ rejected = 0

Crossing(e, S) == {p \in UNION {{<<e[j][1], e[j][2]>>, <<e[j][2], e[j][1]>>} : j \in 1 .. Len(e)} : (p[1] \in S) # (p[2] \in S)}

Verdict(rec, lam, cuts, x) ==
    IF x.st # "ok" THEN "abnormal-" \o x.st
    ELSE IF x.v # lam THEN "value-" \o ToString(x.v) \o "-mincut-" \o ToString(lam)
    ELSE IF x.sv = 0 /\ ~ShapeOK(lam, cuts, x.hn, x.he) THEN "shape-of-cactus"
    ELSE IF x.sv = 1 /\ ~CactusOK(rec.n, rec.e, lam, cuts, x.hn, x.he, x.cont, x.pos) THEN "cactus-does-not-represent-the-minimum-cuts"
    ELSE IF x.bal = 1 /\ ~MostBalanced(rec.n, rec.e, cuts, ToSet(x.side)) THEN "notmostbalanced-" \o ToString(ToSet(x.side))
    ELSE IF x.bal = 2 /\ ~LowestConductance(rec.n, rec.e, cuts, ToSet(x.side)) THEN "notlowestconductance-" \o ToString(ToSet(x.side))
    ELSE IF x.bal > 0 /\ ToSet(x.mb) # Crossing(rec.e, ToSet(x.side)) THEN "cutedges-differ-from-side"
    ELSE ""

Step ==
    /\ i <= Len(Recs)
    /\ \E rec \in {Recs[i]} :
       \E lam \in {MinCutHB(rec.n, rec.e)} :
       \E cuts \in {IF lam = 0 THEN {} ELSE AllMinCuts(rec.n, rec.e, lam)} :
       \E bad \in {{j \in 1 .. Len(rec.runs) : Verdict(rec, lam, cuts, rec.runs[j]) # ""}} :
           /\ \A j \in bad : PrintT("REJECT " \o rec.id \o " " \o rec.runs[j].c \o " "
                                     \o Verdict(rec, lam, cuts, rec.runs[j]))
           /\ rejected' = rejected + Cardinality(bad)
    /\ i' = i + 1
Next == Step
Accepted == PrintT("JUDGED " \o ToString(TLCGet("distinct") - 1) \o " of " \o ToString(Len(Recs)))
            /\ TLCGet("distinct") = Len(Recs) + 1
=============================================================================
