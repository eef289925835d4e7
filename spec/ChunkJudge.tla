----------------------------- MODULE ChunkJudge -----------------------------
(* Judges records of data stored and read back: every delivery of the same  *)
(* data got the same key, different data different keys, every reading gave *)
(* the data; `want` is the tree Chunker expects ([] where it has none) and   *)
(* `got` the one found (a difference there is reported, not a failure).     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
T == JsonDeserialize("records.json")
Bad(r) == \/ \E i \in DOMAIN r.keys : r.keys[i] # r.keys[1]
          \/ r.keys = <<>> \/ r.outs = <<>>
          \/ \E i \in DOMAIN r.outs : r.outs[i] # r.data
Alias == LET ks == {<<T[i].data, T[i].keys[1]>> : i \in {x \in DOMAIN T : T[x].keys # <<>>}}
         IN Cardinality({p[1] : p \in ks}) = Cardinality(ks) /\ Cardinality({p[2] : p \in ks}) = Cardinality(ks)
VARIABLE n
Init == n = 0 /\ PrintT("@@" \o ToJson([n |-> 0, ok |-> Alias, drift |-> FALSE]))
Next == /\ n < Len(T) /\ n' = n + 1
        /\ IF Bad(T[n + 1]) \/ T[n + 1].want # T[n + 1].got
           THEN PrintT("@@" \o ToJson([n |-> n + 1, ok |-> ~Bad(T[n + 1]), drift |-> T[n + 1].want # T[n + 1].got]))
           ELSE TRUE
=============================================================================
