------------------------------ MODULE PathJoin ------------------------------
(* Where extraction of a stored directory may write.  Entry names come from   *)
(* stored data and may be any text: a name is a sequence of components, each  *)
(* an ordinary name, "." or "..", possibly empty, possibly absolute.          *)
(* Extraction joins the names of two nested levels to the destination.  The   *)
(* model shows that accepting exactly the plain names keeps every write       *)
(* strictly below the destination, and which names would leave it.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxComps, Dest, AbsBase
Comps == {"n", ".", ".."}
NamesAll == {[abs |-> ab, c |-> s] : ab \in BOOLEAN, s \in UNION {[1..k -> Comps] : k \in 0..MaxComps}}
\* the join of a path with a name: an absolute name replaces the path; "." vanishes, ".." goes up
RECURSIVE Walk(_, _)
Walk(p, s) == IF s = <<>> THEN p
              ELSE Walk(CASE s[1] = "n" -> Append(p, "n")
                          [] s[1] = "." -> p
                          [] s[1] = ".." -> IF p = <<>> THEN p ELSE SubSeq(p, 1, Len(p) - 1), Tail(s))
Join(p, n) == Walk(IF n.abs THEN AbsBase ELSE p, n.c)
Plain(n) == ~n.abs /\ n.c = <<"n">>
StrictlyBelow(p, q) == Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p
Below(p, q) == Len(q) >= Len(p) /\ SubSeq(q, 1, Len(p)) = p

VARIABLES n1, n2, st
Init == n1 \in NamesAll /\ n2 = n1 /\ st = 0
Next == st = 0 /\ st' = 1 /\ n2' \in NamesAll /\ n1' = n1
Spec == Init /\ [][Next]_<<n1, n2, st>>
P1 == Join(Dest, n1)
P2 == Join(P1, n2)
\* the program's rule: the whole extraction is refused at the first name that is not plain
Writes == (IF Plain(n1) THEN {P1} ELSE {}) \cup (IF Plain(n1) /\ Plain(n2) THEN {P2} ELSE {})
Contained == st = 1 => \A p \in Writes : StrictlyBelow(Dest, p)
\* without the rule some names do leave the destination
Leaves == ~Below(Dest, P1) \/ ~Below(Dest, P2)
NotVacuous == (st = 1 /\ Plain(n1) /\ Plain(n2)) => ~Leaves
Emit == st = 1 => PrintT("@@" \o ToJson([n1 |-> n1, n2 |-> n2, leaves |-> Leaves, plain |-> Plain(n1) /\ Plain(n2)]))
=============================================================================
