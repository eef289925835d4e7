------------------------------ MODULE RefRows ------------------------------
(* Answers about refs, judged against the sequence of everything that was   *)
(* ever recorded (as long as a real history may get): the newest entry for   *)
(* exactly this name and remote, and all of them, newest first.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
Recs == JsonDeserialize("rows.json")
\* a row: <<name, remote, commit>>; remote 0 is none
Of(rows, n, m) == SelectSeq(rows, LAMBDA r : r[1] = n /\ r[2] = m)
NewestFirst(l) == [i \in 1..Len(l) |-> l[Len(l) + 1 - i][3]]
Good(rows, q) ==
  LET l == Of(rows, q.n, q.m) IN
  CASE q.k = "get"  -> IF l = <<>> THEN q.out = <<>> ELSE q.out = <<l[Len(l)][3]>>
    [] q.k = "list" -> q.out = NewestFirst(l)
    [] OTHER -> FALSE
VARIABLES i, k
Init == i = 1 /\ k = 0
Next == /\ i <= Len(Recs)
        /\ IF k < Len(Recs[i].qs)
           THEN k' = k + 1 /\ i' = i /\ (Good(Recs[i].rows, Recs[i].qs[k']) \/ PrintT("@@" \o ToJson([i |-> i, k |-> k'])))
           ELSE k' = 0 /\ i' = i + 1 /\ PrintT("@@" \o ToJson([i |-> i, k |-> 0]))
Spec == Init /\ [][Next]_<<i, k>>
=============================================================================
