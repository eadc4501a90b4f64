------------------------------- MODULE GenPQ -------------------------------
(* Programs for the priority queues: six insertions with any keys (every     *)
(* heap shape of six nodes), one deletion or key change, then deleteMax       *)
(* until the queue is empty.  <<nodes, key span, kind, node, key, ...>>       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
N == 6
Keys == 0 .. 2
VARIABLE prog
Ins(k) == << 0, 0, k[1], 0, 1, k[2], 0, 2, k[3], 0, 3, k[4], 0, 4, k[5], 0, 5, k[6] >>
Drain == <<1, 0, 0, 1, 0, 0, 1, 0, 0, 1, 0, 0, 1, 0, 0, 1, 0, 0>>
Init == \E k \in [1 .. N -> Keys] :
          \/ \E n \in 0 .. N - 1 : prog = <<N, 2>> \o Ins(k) \o <<2, n, 0>> \o Drain
          \/ \E n \in 0 .. N - 1, x \in Keys : x # k[n + 1] /\ prog = <<N, 2>> \o Ins(k) \o <<IF x > k[n + 1] THEN 3 ELSE 4, n, IF x > k[n + 1] THEN x - k[n + 1] ELSE x>> \o Drain
Next == FALSE /\ UNCHANGED prog
Emit == PrintT("HIST " \o ToJson(prog))
=============================================================================
