----------------------------- MODULE SnapRule -----------------------------
(* What a snapshot holds: everything below its root except entries matching   *)
(* an exclusion (with what is below them) and the repository's own database   *)
(* directory, wherever in the tree it lies and also when reached through a    *)
(* symbolic link.  The recursive walk against its declarative meaning.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS Names, Contents, Depth, XSets,   \* exclusions by name
          PSets,      \* exclusions of single paths
          Sample,     \* 0 = all trees, n = a random n of them
          Pool        \* 0 = all entries, n = trees built from a random n of the possible entries
File(c) == [k |-> "F", c |-> c]
Dir(f)  == [k |-> "D", e |-> f]
DB      == [k |-> "B"]          \* the database directory
LinkDB  == [k |-> "L", c |-> "db"]       \* a symbolic link to it
LinkIn  == [k |-> "L", c |-> "in"]       \* a symbolic link to something inside it
Odd     == [k |-> "U", c |-> "u"]        \* what no snapshot can hold: a pipe, a link to nowhere, a link to where it lies
Leafs   == {File(c) : c \in Contents} \cup {DB, LinkDB, LinkIn, Odd}
IsDir(i) == i.k = "D"
RECURSIVE Items(_), CountDB(_), SumDB(_, _), FlatSet(_, _), Walk(_, _, _, _)
Items(d) == Leafs \cup (IF d = 0 THEN {Dir([n \in {} |-> n])} ELSE {Dir(f) : f \in UNION {[S -> Items(d-1)] : S \in SUBSET Names}})
SumDB(f, S) == IF S = {} THEN 0 ELSE LET n == CHOOSE n \in S : TRUE IN CountDB(f[n]) + SumDB(f, S \ {n})
CountDB(i) == IF i.k = "B" THEN 1 ELSE IF IsDir(i) THEN SumDB(i.e, DOMAIN i.e) ELSE 0
FlatSet(i, p) ==
  IF IsDir(i) THEN (IF p = <<>> THEN {} ELSE {[p |-> p, k |-> "D", c |-> "D"]}) \cup UNION {FlatSet(i.e[n], Append(p, n)) : n \in DOMAIN i.e}
  ELSE {[p |-> p, k |-> i.k, c |-> IF i.k = "B" THEN "db" ELSE i.c]}
Flat(i) == FlatSet(i, <<>>)
\* the walk: each entry is judged by its name, its path from the root and by where it really is
Skip(n, i, X, Y, p) == n \in X \/ Append(p, n) \in Y \/ i.k \in {"B", "L"}
Walk(i, X, Y, p) == IF ~IsDir(i) THEN i
                    ELSE LET S == {n \in DOMAIN i.e : ~Skip(n, i.e[n], X, Y, p)} IN Dir([n \in S |-> Walk(i.e[n], X, Y, Append(p, n))])
Entries == IF Pool = 0 THEN Items(Depth - 1) ELSE RandomSubset(Pool, Items(Depth - 1)) \cup Leafs
\* at most one database directory per entry is enough, as the tree holds exactly one
Trees == LET es == {i \in Entries : CountDB(i) <= 1} IN
         {t \in {Dir(f) : f \in UNION {[S -> es] : S \in SUBSET Names}} : CountDB(t) = 1}

VARIABLES t, x, y, st
Snap == Walk(t, x, y, <<>>)
Excluded(p) == \E k \in 1..Len(p) : p[k] \in x \/ SubSeq(p, 1, k) \in y
\* a snapshot can be made: everything odd is excluded, itself or with a directory it lies in
Possible == \A r \in Flat(t) : r.k = "U" => Excluded(r.p)
Init == t \in (IF Sample = 0 THEN Trees ELSE RandomSubset(Sample, Trees)) /\ x = {} /\ y = {} /\ st = 0
Next == st = 0 /\ st' = 1 /\ t' = t /\ x' \in XSets /\ y' \in PSets
Spec == Init /\ [][Next]_<<t, x, y, st>>
\* declarative: r is held iff no component of its path is excluded and it does not lie in the database
Held(r) == r.k \in {"F", "D"} /\ \A k \in 1..Len(r.p) : r.p[k] \notin x /\ SubSeq(r.p, 1, k) \notin y
RuleOK == Possible => Flat(Snap) = {r \in Flat(t) : Held(r)}
NoDB == Possible => \A r \in Flat(Snap) : r.k \in {"F", "D"}
\* taking the snapshot of a subdirectory is the corresponding part of the whole
SubOK == \A n \in DOMAIN t.e : (IsDir(t.e[n]) /\ n \notin x /\ <<n>> \notin y) => Snap.e[n] = Walk(t.e[n], x, {Tail(p) : p \in {q \in y : q[1] = n}}, <<>>)
RECURSIVE JoinPath(_)
JoinPath(p) == IF p = <<>> THEN "" ELSE IF Len(p) = 1 THEN p[1] ELSE p[1] \o "/" \o JoinPath(Tail(p))
Emit == (st = 1 /\ Possible) => PrintT("@@" \o ToJson([t |-> {<<JoinPath(r.p), r.k, r.c>> : r \in Flat(t)}, x |-> x, y |-> {JoinPath(p) : p \in y},
                                         snap |-> {<<JoinPath(r.p), r.c>> : r \in Flat(Snap)}]))
=============================================================================
