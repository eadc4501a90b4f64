---------------------------- MODULE MetisReader ----------------------------
(***************************************************************************)
(* The line reader of lib/io/graph_io.h at the level of characters: a        *)
(* cursor moves over a line of digits and blanks (0), numbers are collected   *)
(* digit by digit, loops are dropped with their weight, a vertex weight at     *)
(* the start of the line is passed over.  The machine must deliver what the    *)
(* tokens of the line mean.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS MaxLen, Digits, SkipRuns, LoopWeight, VertexWeight
VARIABLES line, ew, vw, at, phase, num, target, out
vars == <<line, ew, vw, at, phase, num, target, out>>
Self == 1        \* number of the line's vertex
Blank == 0
Chars == Digits \cup {Blank}

\* meaning ------------------------------------------------------------------
Tokens(l) == FoldLeft(LAMBDA a, c : IF c = Blank THEN [a EXCEPT !.on = FALSE]
                                    ELSE IF a.on THEN [a EXCEPT !.t[Len(a.t)] = 10 * @ + c]
                                    ELSE [t |-> Append(a.t, c), on |-> TRUE],
                      [t |-> << >>, on |-> FALSE], l).t
Row(tok, weighted, hasVW) ==
    LET t == IF hasVW THEN Tail(tok) ELSE tok
        all == IF weighted THEN [k \in 1 .. Len(t) \div 2 |-> <<t[2 * k - 1], t[2 * k]>>] ELSE [k \in 1 .. Len(t) |-> <<t[k], 1>>]
    IN  SelectSeq(all, LAMBDA x : x[1] # Self)
WellFormed(l, weighted, hasVW) == LET t == Tokens(l) IN
    /\ hasVW => Len(t) >= 1
    /\ weighted => (Len(t) - (IF hasVW THEN 1 ELSE 0)) % 2 = 0

\* machine ------------------------------------------------------------------
Init == /\ line \in UNION {[1 .. k -> Chars] : k \in 0 .. MaxLen} /\ ew \in BOOLEAN /\ vw \in BOOLEAN
        /\ WellFormed(line, ew, vw)
        /\ at = 1 /\ phase = "blanks" /\ num = 0 /\ target = (IF vw /\ VertexWeight THEN "vw" ELSE "none") /\ out = << >>
More == at <= Len(line)
\* blanks in front of a number; without SkipRuns only those at the line's start
Skip == phase = "blanks" /\ More /\ line[at] = Blank /\ (SkipRuns \/ \A k \in 1 .. at : line[k] = Blank)
        /\ at' = at + 1 /\ UNCHANGED <<line, ew, vw, phase, num, target, out>>
Begin == phase = "blanks" /\ ~ENABLED Skip /\ (More \/ target \notin {"none", "vw"}) /\ phase' = "digits" /\ num' = 0
         /\ UNCHANGED <<line, ew, vw, at, target, out>>
Digit == phase = "digits" /\ More /\ line[at] # Blank /\ num' = 10 * num + line[at] /\ at' = at + 1
         /\ UNCHANGED <<line, ew, vw, phase, target, out>>
\* the number is complete, the character behind it is passed over
EndNumber ==
    /\ phase = "digits" /\ ~(More /\ line[at] # Blank) /\ at' = at + 1
    /\ IF target = "vw" THEN target' = "none" /\ phase' = "blanks" /\ UNCHANGED out
       ELSE IF target = "none"
       THEN IF num = 0 THEN phase' = "done" /\ UNCHANGED <<target, out>>
            ELSE IF num = Self /\ (~ew \/ ~LoopWeight) THEN phase' = "blanks" /\ UNCHANGED <<target, out>>
            ELSE IF ew THEN target' = ToString(num) /\ phase' = "blanks" /\ UNCHANGED out
            ELSE out' = Append(out, <<num, 1>>) /\ phase' = "blanks" /\ UNCHANGED target
       ELSE /\ target' = "none" /\ phase' = "blanks"
            /\ out' = IF target = ToString(Self) THEN out ELSE Append(out, <<target, num>>)
    /\ UNCHANGED <<line, ew, vw, num>>
End == phase = "blanks" /\ ~More /\ target \in {"none", "vw"} /\ phase' = "done" /\ UNCHANGED <<line, ew, vw, at, num, target, out>>
Next == Skip \/ Begin \/ Digit \/ EndNumber \/ End
Spec == Init /\ [][Next]_vars
Str(x) == <<ToString(x[1]), x[2]>>
Norm(s) == [k \in 1 .. Len(s) |-> <<IF ew THEN s[k][1] ELSE ToString(s[k][1]), s[k][2]>>]
MeaningAtEnd == phase = "done" => Norm(out) = [k \in 1 .. Len(Row(Tokens(line), ew, vw)) |-> Str(Row(Tokens(line), ew, vw)[k])]
=============================================================================
