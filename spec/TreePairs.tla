----------------------------- MODULE TreePairs -----------------------------
(* Every pair of directory trees (and every exclusion set): the algorithms   *)
(* against their declarative meaning, and the expected results for replay.   *)
EXTENDS Tree, Json, Randomization
CONSTANTS Order,      \* sequence of all names
          XSets,      \* exclusion sets (sets of names) to consider
          SampleA, SampleB,   \* 0 = all trees, n = a random subset of n trees
          EmitWhat    \* which results to print: "none", "fetch", "diff", "checkout", "snap"
VARIABLES a, b, x, st
vars == <<a, b, x, st>>
Pick(n) == IF n = 0 THEN DirTrees ELSE RandomSubset(n, DirTrees)
\* the file root case is added for fetch
Init == a \in Pick(SampleA) /\ b = EmptyDir /\ x = {} /\ st = 0
Next == st = 0 /\ st' = 1 /\ b' \in Pick(SampleB) /\ x' \in XSets /\ a' = a
Spec == Init /\ [][Next]_vars

InvSnapshot == SnapshotOK(a, x)
InvFetch == FetchOK(a, b, Order)
InvRoundTrip == LET r == Extract(Obj(a, Order), <<>>, {}) IN r.ok /\ r.fs = Flat(a)
InvDiff == LET r == Compare(Flat(a), Flat(b)) IN DiffOK(Flat(a), Flat(b), r) /\ FoldOK(r.added) /\ FoldOK(r.deleted)
InvClean == LET r == Compare(Flat(a), Flat(b)) IN
              (r.added = {} /\ r.deleted = {} /\ r.modified = {}) <=> a = b
InvObj == (Obj(a, Order) = Obj(b, Order)) <=> (a = b)      \* equal keys iff equal trees
\* a: working tree, b: commit tree, x: excluded
InvCheckout ==
  LET r == Checkout(a, b, x)
      E == ExclFlat(a, x)
      keep == {q \in PathsOf(a) : \E e \in E : IsPre(q, e.p)}     \* excluded entries and the directories holding them
      fl == Flat(r.i)
  IN /\ E \subseteq fl                                            \* excluded entries untouched
     /\ {e \in ExclFlat(r.i, x) : e \notin E} \subseteq Flat(b)     \* nothing excluded invented
     /\ r.ok => /\ {e \in fl : e.p \notin keep} \subseteq Flat(b)
                /\ \A e \in Flat(b) : (\E q \in PathsOf(a) : IsPre(q, e.p) /\ q[Len(q)] \in x) \/ e \in fl
     /\ (x = {} => r.ok /\ r.i = b)
     /\ r.ok => (LET r2 == Checkout(r.i, b, x) IN r2.ok /\ r2.i = r.i)   \* idempotent

PS(s) == {<<JoinPath(y[1]), IF y[2] THEN "D" ELSE "F">> : y \in s}
FS(fs) == {<<JoinPath(r.p), r.c>> : r \in fs}
Emit ==
  st = 1 => CASE EmitWhat = "none" -> TRUE
    [] EmitWhat = "fetch" -> LET r == Extract(Obj(a, Order), <<>>, Flat(b)) IN
         PrintT("@@" \o ToJson([a |-> Show(a), b |-> Show(b), ok |-> r.ok,
                 clash |-> {JoinPath(z.p) : z \in {u \in Flat(a) : \E y \in Flat(b) : u.p = y.p /\ (~u.d \/ ~y.d)}}]))
    [] EmitWhat = "diff" -> LET r == Compare(Flat(Snapshot(a, x)), Flat(b)) IN
         PrintT("@@" \o ToJson([a |-> Show(a), b |-> Show(b), x |-> x, added |-> PS(Fold(r.added)),
                 deleted |-> PS(Fold(r.deleted)), modified |-> {JoinPath(p) : p \in r.modified}]))
    [] EmitWhat = "checkout" -> LET r == Checkout(a, b, x) IN
         PrintT("@@" \o ToJson([a |-> Show(a), b |-> Show(b), x |-> x, ok |-> r.ok, r |-> FS(Flat(r.i)),
                 excl |-> FS(ExclFlat(a, x))]))
    [] EmitWhat = "snap" -> PrintT("@@" \o ToJson([a |-> Show(a), x |-> x, snap |-> Show(Snapshot(a, x))]))
=============================================================================
