------------------------------- MODULE Graph -------------------------------
(* The object graph as other processes find it while commands store into it.*)
(* Objects 1..N; kids[i] are the objects i names (all smaller: content      *)
(* addressing allows no cycles); com is what is committed, refs the entries *)
(* of ref histories.  A command runs in one transaction: it stores a wanted *)
(* object and everything below it, skipping what it already sees, and may   *)
(* push a ref entry; it commits, fails or is killed at any moment.          *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS N, Procs,
          Txn,          \* writes become visible together, at the commit
          ChildFirst,   \* an object is stored after what it names
          TrustCache,   \* what the cache names is taken to be stored
          CheckRef      \* only stored objects get into a ref history
VARIABLES kids, com, refs, pc, want, mine, mref, lock, cache
vars == <<kids, com, refs, pc, want, mine, mref, lock, cache>>
Obj == 1 .. N
RECURSIVE Below(_, _)
Below(k, S) == LET T == S \cup UNION {k[i] : i \in S} IN IF T = S THEN S ELSE Below(k, T)
Sees(p) == com \cup mine[p]
Init == /\ kids \in [Obj -> SUBSET Obj] /\ \A i \in Obj : kids[i] \subseteq 1 .. i - 1
        /\ com = {} /\ refs = {} /\ cache \in (IF TrustCache THEN SUBSET Obj ELSE {{}})
        /\ pc = [p \in Procs |-> "idle"] /\ want = [p \in Procs |-> 0]
        /\ mine = [p \in Procs |-> {}] /\ mref = [p \in Procs |-> 0] /\ lock = 0
Begin(p, o) == /\ pc[p] = "idle" /\ pc' = [pc EXCEPT ![p] = "run"] /\ want' = [want EXCEPT ![p] = o]
               /\ UNCHANGED <<kids, com, refs, mine, mref, lock, cache>>
Have(p) == Sees(p) \cup (IF TrustCache THEN cache ELSE {})
Put(p) == /\ pc[p] = "run" /\ lock \in {0, p}
          /\ \E o \in Below(kids, {want[p]}) \ Have(p) :
               /\ ChildFirst => kids[o] \subseteq Have(p)
               /\ IF Txn THEN mine' = [mine EXCEPT ![p] = @ \cup {o}] /\ com' = com
                  ELSE com' = com \cup {o} /\ mine' = mine
          /\ lock' = IF Txn THEN p ELSE 0
          /\ UNCHANGED <<kids, refs, pc, want, mref, cache>>
\* the wanted object is there (or was before); its key goes into a history
Push(p) == /\ pc[p] = "run" /\ lock \in {0, p} /\ mref[p] = 0
           /\ \E o \in IF CheckRef THEN Sees(p) ELSE Obj :
                /\ (o = want[p] \/ o \in com)
                /\ IF Txn THEN mref' = [mref EXCEPT ![p] = o] /\ refs' = refs ELSE refs' = refs \cup {o} /\ mref' = mref
           /\ lock' = IF Txn THEN p ELSE 0
           /\ UNCHANGED <<kids, com, pc, want, mine, cache>>
Commit(p) == /\ pc[p] = "run" /\ Below(kids, {want[p]}) \ Have(p) = {}
             /\ com' = com \cup mine[p] /\ refs' = (IF mref[p] = 0 THEN refs ELSE refs \cup {mref[p]})
             /\ pc' = [pc EXCEPT ![p] = "done"] /\ mine' = [mine EXCEPT ![p] = {}] /\ mref' = [mref EXCEPT ![p] = 0]
             /\ lock' = (IF lock = p THEN 0 ELSE lock) /\ UNCHANGED <<kids, want, cache>>
Stop(p) == /\ pc[p] = "run" /\ pc' = [pc EXCEPT ![p] = "done"]
           /\ mine' = [mine EXCEPT ![p] = {}] /\ mref' = [mref EXCEPT ![p] = 0]
           /\ lock' = (IF lock = p THEN 0 ELSE lock) /\ UNCHANGED <<kids, com, refs, want, cache>>
Next == \E p \in Procs : (\E o \in Obj : Begin(p, o)) \/ Put(p) \/ Push(p) \/ Commit(p) \/ Stop(p)
Spec == Init /\ [][Next]_vars
Closed == (\A i \in com : kids[i] \subseteq com) /\ refs \subseteq com
=============================================================================
