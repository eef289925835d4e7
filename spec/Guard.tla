------------------------------- MODULE Guard -------------------------------
(* Which repository a spelled path reaches, and whether checkout may run      *)
(* there.  Nodes are directories holding a repository each: W and V below the *)
(* permitted root, O elsewhere, S in a directory whose name merely starts     *)
(* like the permitted root's, Q the permitted root's parent directory.        *)
(* A path is spelled as a sequence of steps: relative steps with "..",        *)
(* symbolic links, and plain names.                                           *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT MaxSteps
Nodes == {"W", "V", "O", "S", "Q"}
Permitted == {"W", "V"}
Edge == [n \in Nodes |-> CASE n = "W" -> [dotdotV |-> "V", link |-> "O", dotdotO |-> "O", dotdotS |-> "S", dotdotQ |-> "Q", dot |-> "W"]
                           [] n = "V" -> [dotdotW |-> "W", dotdotO |-> "O", dot |-> "V", linkS |-> "S"]
                           [] n = "O" -> [back |-> "W", dotdotW |-> "W", dot |-> "O"]
                           [] n = "S" -> [dotdotW |-> "W", dot |-> "S", link |-> "O"]
                           [] n = "Q" -> [down |-> "W", dot |-> "Q"]]
VARIABLES start, steps, at
vars == <<start, steps, at>>
Init == start \in Nodes /\ steps = <<>> /\ at = start
Next == Len(steps) < MaxSteps /\ \E e \in DOMAIN Edge[at] : steps' = Append(steps, e) /\ at' = Edge[at][e] /\ start' = start
Spec == Init /\ [][Next]_vars
\* what decides is the directory reached, never how it was spelled
RECURSIVE Reach(_, _)
Reach(n, s) == IF s = <<>> THEN n ELSE Reach(Edge[n][s[1]], Tail(s))
Resolved == at = Reach(start, steps)
MayRun == at \in Permitted
Emit == PrintT("@@" \o ToJson([start |-> start, steps |-> steps, at |-> at, may |-> MayRun]))
=============================================================================
