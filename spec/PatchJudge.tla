----------------------------- MODULE PatchJudge -----------------------------
(* Printed patches and line statistics, judged by Patch.tla's Apply.        *)
EXTENDS Patch
Recs == JsonDeserialize("patches.json")
VARIABLE k
V(r) == [patch |-> ~r.haspatch \/ Correct(r.old, r.new, r.hunks),
         stat |-> \A i \in DOMAIN r.stats : StatOk(r.old, r.new, r.stats[i][1], r.stats[i][2]),
         printed |-> r.clean]
JInit == k = 0 /\ script = <<>>
JNext == /\ k < Len(Recs) /\ k' = k + 1 /\ UNCHANGED script
         /\ LET v == V(Recs[k']) IN (\A f \in DOMAIN v : v[f]) \/ PrintT("@@" \o ToJson([k |-> k', v |-> v]))
         /\ (k' = Len(Recs) => PrintT("@@" \o ToJson([k |-> 0, v |-> k'])))
JSpec == JInit /\ [][JNext]_<<k, script>>
=============================================================================
