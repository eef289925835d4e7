----------------------------- MODULE DiskTrace -----------------------------
(* The operations recorded from the real program, taken through Disk.tla: *)
(* after each of them, every crash image is emitted.                      *)
EXTENDS Disk, TLC, Json, SequencesExt, FiniteSetsExt

T == JsonDeserialize("trace.json")

VARIABLES i, pend, ents
vars == <<i, pend, ents>>

Inodes == 1 .. T.inodes
Paths == 1 .. T.paths
Ops == T.ops

\* the operations after which to emit (all of them if none are named)
At == IF T.at = <<>> THEN 1 .. Len(Ops) ELSE Range(T.at)
Emit(k, p, e) ==
  IF k \notin At THEN TRUE ELSE
  LET ims == Images(p, e) IN
  PrintT("@@" \o ToJson([i |-> k, ims |-> SetToSeq({[e |-> m.ent,
     f |-> [x \in Inodes |-> [d |-> {p[x][j] : j \in (1 .. Len(p[x])) \ m.file[x].keep},
                               t |-> IF m.file[x].torn = 0 THEN 0 ELSE p[x][m.file[x].torn]]]] : m \in ims})]))

Init == /\ i = 0
        /\ pend = [f \in Inodes |-> <<>>]
        /\ ents = [p \in Paths |-> <<0>>]

Next ==
  /\ i < Len(Ops)
  /\ i' = i + 1
  /\ LET o == Ops[i + 1] IN
     CASE o.k = "w" -> /\ pend' = [pend EXCEPT ![o.f] = Append(@, o.id)] /\ ents' = ents
       [] o.k = "sync" -> /\ pend' = [pend EXCEPT ![o.f] = <<>>] /\ ents' = ents
       [] o.k = "ent" -> /\ ents' = [ents EXCEPT ![o.p] = Append(@, o.f)] /\ pend' = pend
       [] o.k = "dsync" -> /\ ents' = [p \in Paths |-> IF p \in Range(o.ps) THEN <<Last(ents[p])>> ELSE ents[p]]
                           /\ pend' = pend
       [] o.k = "mark" -> UNCHANGED <<pend, ents>>
  /\ Emit(i', pend', ents')

Spec == Init /\ [][Next]_vars
=============================================================================
