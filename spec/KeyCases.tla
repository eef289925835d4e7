------------------------------ MODULE KeyCases ------------------------------
(* Enumerates what matters about a lookup: how long the text is, how it ends *)
(* (so whether adding one carries), which keys next to the edges of its      *)
(* range are stored, how it is written, and how it is spoiled.               *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxLen
VARIABLE case
Near == {"lo", "below", "hi", "above", "in"}
Shapes == {"zeros", "ones", "carry", "random", "ends0"}
Spoils == {"none", "upper", "mixed", "bad", "type", "space", "long", "tail", "nonascii"}
Init == \E n \in 0 .. MaxLen, s \in Shapes :
          \/ \E p \in SUBSET Near, w \in {"none"} : case = [n |-> n, s |-> s, p |-> p, w |-> w]
          \/ \E p \in {{}, {"lo"}, {"in", "hi"}}, w \in Spoils \ {"none"} : case = [n |-> n, s |-> s, p |-> p, w |-> w]
Next == UNCHANGED case
Spec == Init /\ [][Next]_case
Emit == PrintT("@@" \o ToJson(case))
=============================================================================
