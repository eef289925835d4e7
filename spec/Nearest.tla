------------------------------ MODULE Nearest ------------------------------
(* Which repository a command acts on: the one in the nearest enclosing       *)
(* directory of where it starts.  A tree of directories, some holding a       *)
(* repository; initialising adds one where it is run, committing extends the  *)
(* history of the nearest one only, with the snapshot of *its* working tree.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps
\* directories as paths: "", a, a/b, a/b/c, d
Dirs == {<<>>, <<"a">>, <<"a", "b">>, <<"a", "b", "c">>, <<"d">>}
VARIABLES repos,   \* directories holding a repository
          len,     \* number of commits in each directory's repository
          ops, last
vars == <<repos, len, ops, last>>
Prefixes(d) == {SubSeq(d, 1, k) : k \in 0..Len(d)}
Enclosing(d) == Prefixes(d) \cap repos
Near(d) == CHOOSE r \in Enclosing(d) : \A q \in Enclosing(d) : Len(q) <= Len(r)
Init == repos = {} /\ len = [d \in Dirs |-> 0] /\ ops = 0 /\ last = [a |-> "start"]
InitAt(d) == repos' = repos \cup {d} /\ len' = len /\ last' = [a |-> "init", d |-> d, ok |-> TRUE]
CommitFrom(d) ==
  IF Enclosing(d) = {} THEN last' = [a |-> "commit", d |-> d, ok |-> FALSE] /\ UNCHANGED <<repos, len>>
  ELSE len' = [len EXCEPT ![Near(d)] = @ + 1] /\ repos' = repos /\ last' = [a |-> "commit", d |-> d, ok |-> TRUE, r |-> Near(d)]
Query(d, c) ==
  /\ last' = IF Enclosing(d) = {} THEN [a |-> c, d |-> d, ok |-> FALSE]
             ELSE [a |-> c, d |-> d, ok |-> TRUE, r |-> Near(d), n |-> len[Near(d)]]
  /\ UNCHANGED <<repos, len>>
Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \E d \in Dirs : InitAt(d) \/ CommitFrom(d) \/ \E c \in {"reflog", "status"} : Query(d, c)
Spec == Init /\ [][Next]_vars
\* a commit changes the nearest repository's history and no other's
OnlyNearest == [][last'.a = "commit" =>
    \A r \in Dirs : len'[r] # len[r] => r \in Enclosing(last'.d) /\ \A q \in Enclosing(last'.d) : Len(q) <= Len(r)]_vars
ASSUME TLCSet(42, 0)
Emit == LET l == TLCGet("level") IN IF TLCGet(42) = l THEN TRUE ELSE TLCSet(42, l) /\ PrintT("@@" \o ToJson([l |-> l, a |-> last, len |-> {<<d, len[d]>> : d \in repos}]))
=============================================================================
