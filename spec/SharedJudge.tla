---------------------------- MODULE SharedJudge ----------------------------
(* Judges what storing the versions of a file one after the other added:    *)
(* at most two blocks of content for each block (64 KiB at the same place)  *)
(* in which a version differs from the one before, or that only one has.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
T == JsonDeserialize("records.json")
BlockBytes == 65536
Max2(a, b) == IF a > b THEN a ELSE b
Changed(a, b) == {i \in 1 .. Max2(Len(a), Len(b)) : i > Len(a) \/ i > Len(b) \/ (i <= Len(a) /\ i <= Len(b) /\ a[i] # b[i])}
Bound(a, b) == 2 * BlockBytes * Cardinality(Changed(a, b))
\* versions: sequences of block contents; added[i]: bytes of content stored with version i + 1 that were not there before
Bad(r) == {i \in DOMAIN r.added : r.added[i] > Bound(r.versions[i], r.versions[i + 1])}
VARIABLE n
Init == n = 0
Next == /\ n < Len(T) /\ n' = n + 1
        /\ IF Bad(T[n + 1]) # {}
           THEN PrintT("@@" \o ToJson([n |-> n + 1, at |-> CHOOSE i \in Bad(T[n + 1]) : TRUE]))
           ELSE TRUE
=============================================================================
