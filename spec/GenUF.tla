------------------------------- MODULE GenUF -------------------------------
(* All small programs of the concurrent disjoint set machine: two threads,  *)
(* one or two calls each, three elements; printed for the driver.           *)
EXTENDS Integers, Sequences, TLC, Json
E == 0 .. 2
Unions == {<<0, a, b>> : a, b \in E} \ {<<0, a, a>> : a \in E}
Calls == Unions \cup {<<1, a, b>> : a, b \in E} \cup {<<2, a, a>> : a \in E}
Seqs(S, k) == [1 .. k -> S]
VARIABLE prog
Flat(p, q) == <<3>> \o (IF Len(p) = 1 THEN <<0>> \o p[1] ELSE <<0>> \o p[1] \o <<0>> \o p[2])
                    \o (IF Len(q) = 1 THEN <<1>> \o q[1] ELSE <<1>> \o q[1] \o <<1>> \o q[2])
Init == \/ \E p \in Seqs(Calls, 1), q \in Seqs(Calls, 1) : prog = Flat(p, q)
        \/ \E p \in Seqs(Unions, 2), q \in Seqs(Calls, 1) : prog = Flat(p, q)
        \/ \E p \in Seqs(Unions, 2), q \in Seqs(Unions, 2) : prog = Flat(p, q)
Next == FALSE /\ UNCHANGED prog
Emit == PrintT("HIST " \o ToJson(prog))
=============================================================================
