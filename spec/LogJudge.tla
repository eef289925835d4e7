------------------------------ MODULE LogJudge ------------------------------
(* Output of log and show, judged against the commit graph it was asked of. *)
(* A commit: parents in their stored order, message, files with contents.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
Recs == JsonDeserialize("logs.json")
Elems(s) == {s[i] : i \in DOMAIN s}
\* out is the first-parent chain from commit k: it starts there, goes on with first parents, and ends where there is none
IsChain(cm, out, k) == LET n == Len(out) IN
  /\ n > 0 /\ out[1].id = k
  /\ \A i \in 1..n : out[i].id \in DOMAIN cm
  /\ \A i \in 1..(n - 1) : cm[out[i].id].par # <<>> /\ cm[out[i].id].par[1] = out[i + 1].id
  /\ cm[out[n].id].par = <<>>
Files(cm, k) == Elems(cm[k].files)
\* paths at which the files of k differ from those of its first parent
Changed(cm, k) == LET a == Files(cm, k)
                      b == IF cm[k].par = <<>> THEN {} ELSE Files(cm, cm[k].par[1])
                  IN {y[1] : y \in (a \ b) \cup (b \ a)}
Verdict(cm, q) ==
  LET n == Len(q.out)
  IN [chain |-> IF q.all THEN IsChain(cm, q.out, q.start) ELSE n = 1 /\ q.out[1].id = q.start,
      msgs |-> \A i \in 1..n : q.out[i].id \in DOMAIN cm => q.out[i].msg = cm[q.out[i].id].msg,
      changed |-> \A i \in 1..n : q.out[i].id \in DOMAIN cm =>
                     (Elems(q.out[i].changed) = Changed(cm, q.out[i].id) /\ Cardinality(Elems(q.out[i].changed)) = Len(q.out[i].changed)),
      clean |-> q.clean]
VARIABLES r, k
Init == r = 1 /\ k = 0
Next == /\ r <= Len(Recs)
        /\ IF k < Len(Recs[r].qs)
           THEN /\ k' = k + 1 /\ r' = r
                /\ LET v == Verdict(Recs[r].cm, Recs[r].qs[k']) IN
                   (\A f \in DOMAIN v : v[f]) \/ PrintT("@@" \o ToJson([r |-> r, k |-> k', v |-> v]))
           ELSE /\ r' = r + 1 /\ k' = 0 /\ PrintT("@@" \o ToJson([r |-> r, k |-> 0, v |-> Len(Recs[r].qs)]))
Spec == Init /\ [][Next]_<<r, k>>
=============================================================================
