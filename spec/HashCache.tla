----------------------------- MODULE HashCache -----------------------------
(* Comparing the working tree through a cache shared by all repositories.   *)
(* The cache maps what stat says about a file to the hash of its content.   *)
(* Time passes in ticks; changes within a tick get the same timestamps.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Files, Repos, Contents, Inodes, MaxNow, MaxSteps,
          UseCtime,      \* the change time is part of the cache key
          UseInode,      \* so is the inode
          Settle,        \* an entry is only made for a file last changed before the current tick:
                         \* "ct" by its change time, "mt" by its modification time, "off" always
          CheckStored,   \* a hash from the cache is only used where the object is stored
          Emit
VARIABLES now, file, cache, repo, n, last,
          h              \* the steps taken (kept when emitting)
vars == <<now, file, cache, repo, n, last, h>>
Size(c) == IF c = 3 THEN 2 ELSE 1
Absent == [c |-> 0, ino |-> 0, mt |-> 0, ct |-> 0]
Fresh == [exists |-> TRUE, tree |-> [f \in Files |-> 0], commits |-> 0, objs |-> {}]
Free == Inodes \ {file[f].ino : f \in Files}
Init == /\ now = 1 /\ file = [f \in Files |-> Absent] /\ cache = [k \in {} |-> 0]
        /\ repo = [r \in Repos |-> Fresh] /\ n = 0 /\ h = <<>>
        /\ last = [a |-> "start", ok |-> TRUE]
Did(a) == last' = a /\ n' = n + 1 /\ h' = IF Emit THEN Append(h, a) ELSE h
Edit(f, v, a) == file' = [file EXCEPT ![f] = v] /\ Did(a) /\ UNCHANGED <<now, cache, repo>>
Lab(k, f, c) == [a |-> k, f |-> f, c |-> c, ok |-> TRUE]
Write(f, c) == IF file[f].c = 0
  THEN \E i \in Free : Edit(f, [c |-> c, ino |-> i, mt |-> now, ct |-> now], Lab("write", f, c))
  ELSE Edit(f, [file[f] EXCEPT !.c = c, !.mt = now, !.ct = now], Lab("write", f, c))
\* written in place, and the modification time put back
Restored(f, c) == file[f].c # 0 /\ Edit(f, [file[f] EXCEPT !.c = c, !.ct = now], Lab("restored", f, c))
\* another file moved over it, with the old one's modification time
Replaced(f, c) == file[f].c # 0 /\ \E i \in Free : Edit(f, [c |-> c, ino |-> i, mt |-> file[f].mt, ct |-> now], Lab("replaced", f, c))
Deleted(f) == file[f].c # 0 /\ Edit(f, Absent, Lab("deleted", f, 0))
Touched(f) == file[f].c # 0 /\ Edit(f, [file[f] EXCEPT !.mt = 0, !.ct = now], Lab("touched", f, 0))
Swapped(f, g) == /\ f # g /\ file[f].c # 0 /\ file[g].c # 0
                 /\ file' = [file EXCEPT ![f] = [file[g] EXCEPT !.ct = now], ![g] = [file[f] EXCEPT !.ct = now]]
                 /\ Did([a |-> "swapped", f |-> f, c |-> g, ok |-> TRUE]) /\ UNCHANGED <<now, cache, repo>>
Tick == now < MaxNow /\ now' = now + 1 /\ Did([a |-> "tick", f |-> 0, c |-> 0, ok |-> TRUE]) /\ UNCHANGED <<file, cache, repo>>

Key(f) == <<IF UseInode THEN file[f].ino ELSE 0, Size(file[f].c), file[f].mt, IF UseCtime THEN file[f].ct ELSE 0>>
Present == {f \in Files : file[f].c # 0}
Hit(r, f) == Key(f) \in DOMAIN cache /\ (CheckStored => cache[Key(f)] \in repo[r].objs)
Hash(r, f) == IF Hit(r, f) THEN cache[Key(f)] ELSE file[f].c
\* what comparing the working tree leaves behind, and what it finds
Put == {f \in Present : (Settle = "ct" => file[f].ct < now) /\ (Settle = "mt" => file[f].mt < now)}
Look(r, fs) ==
  LET miss == {f \in fs : ~Hit(r, f)}
      new == {Key(f) : f \in miss \cap Put} \ DOMAIN cache
  IN /\ repo' = [repo EXCEPT ![r].objs = @ \cup {file[f].c : f \in miss}]
     /\ cache' = [k \in DOMAIN cache \cup new |-> IF k \in DOMAIN cache THEN cache[k] ELSE file[CHOOSE f \in miss : Key(f) = k].c]
Diff(t, x) == [added |-> {f \in Files : t[f] = 0 /\ x[f] # 0}, deleted |-> {f \in Files : t[f] # 0 /\ x[f] = 0},
               modified |-> {f \in Files : t[f] # 0 /\ x[f] # 0 /\ t[f] # x[f]}]
Truth == [f \in Files |-> file[f].c]
Seen(r) == [f \in Files |-> IF file[f].c = 0 THEN 0 ELSE Hash(r, f)]
\* every hash reported names a stored object with the file's content
Right(r) == \A f \in Present : Hash(r, f) = file[f].c /\ (Hit(r, f) => file[f].c \in repo[r].objs)
Query(k, r) == /\ Look(r, Present)
               /\ Did([a |-> k, f |-> r, c |-> 0, ok |-> Diff(repo[r].tree, Seen(r)) = Diff(repo[r].tree, Truth) /\ Right(r),
                       d |-> Diff(repo[r].tree, Truth), commits |-> repo[r].commits, wt |-> Truth, tree |-> repo[r].tree])
               /\ UNCHANGED <<now, file>>
Commit(r) == /\ repo[r].commits < 3 /\ repo' = [repo EXCEPT ![r].tree = Truth, ![r].commits = @ + 1, ![r].objs = @ \cup {file[f].c : f \in Present}]
             /\ Did([a |-> "commit", f |-> r, c |-> 0, ok |-> TRUE]) /\ UNCHANGED <<now, file, cache>>
\* the repository is deleted and made again
Recreate(r) == /\ repo[r].objs # {} /\ repo' = [repo EXCEPT ![r] = Fresh]
               /\ Did([a |-> "recreate", f |-> r, c |-> 0, ok |-> TRUE]) /\ UNCHANGED <<now, file, cache>>
Edits == \E f \in Files : \/ \E c \in Contents : Write(f, c) \/ Restored(f, c) \/ Replaced(f, c)
                          \/ Deleted(f) \/ Touched(f) \/ \E g \in Files : Swapped(f, g)
Next == n < MaxSteps /\
  \/ \E f \in Files, c \in Contents : Write(f, c)
  \/ \E f \in Files, c \in Contents : Restored(f, c)
  \/ \E f \in Files, c \in Contents : Replaced(f, c)
  \/ \E f \in Files : Deleted(f) \/ Touched(f)
  \/ \E f, g \in Files : Swapped(f, g)
  \/ Tick
  \/ \E r \in Repos : Commit(r)
  \/ \E r \in Repos : Recreate(r)
  \/ \E r \in Repos : Query("status", r)
  \/ \E r \in Repos : Query("compare", r)
  \/ \E r \in Repos : Query("stat", r)
  \/ \E r \in Repos : Query("checkouthead", r)
\* the same, with the kinds of steps balanced (for random behaviours)
R(S) == RandomElement(S)
Unsettled == \E f \in Present : file[f].ct = now
GNext == n < MaxSteps /\
  \/ \E f \in {R(Files)}, c \in {R(Contents)} : Write(f, c)
  \/ \E f \in {R(Files)}, c \in {R(Contents)} : c # file[f].c /\ Restored(f, c)
  \/ \E f \in {R(Files)}, c \in {R(Contents)} : Replaced(f, c)
  \/ \E f \in {R(Files)} : IF R(1 .. 2) = 1 THEN Deleted(f) ELSE Touched(f)
  \/ \E f \in {R(Files)}, g \in {R(Files)} : Swapped(f, g)
  \/ Unsettled /\ Tick
  \/ Unsettled /\ last.a # "commit" /\ Tick
  \/ \E r \in {R(Repos)} : Commit(r)
  \/ \E r \in {R(Repos)} : n > 8 /\ Recreate(r)
  \/ \E r \in {R(Repos)} : Present # {} /\ Query("status", r)
  \/ \E r \in {R(Repos)} : Present # {} /\ repo[r].commits > 0 /\ Query("compare", r)
  \/ \E r \in {R(Repos)} : Present # {} /\ repo[r].commits > 0 /\ Query("stat", r)
  \/ \E r \in {R(Repos)} : Present # {} /\ Query("checkouthead", r)
  \/ \E r \in {R(Repos)} : Present # {} /\ repo[r].commits > 0 /\ Query(R({"status", "stat", "checkouthead"}), r)
GSpec == Init /\ [][GNext]_vars
Spec == Init /\ [][Next]_vars
Same == last.ok
ASSUME TLCSet(43, 0)
EmitC == Emit =>
  LET l == TLCGet("level") IN
  IF TLCGet(43) = l THEN TRUE ELSE TLCSet(43, l) /\ PrintT("@@" \o ToJson([l |-> l, e |-> last, wt |-> Truth]))
View == <<now, file, cache, repo, last.ok>>
\* for weakened designs: one shortest history into every state a wrong comparison leads to
EmitBad == last.ok /\ ((Emit /\ ~last'.ok) => PrintT("@@" \o ToJson(h')))
=============================================================================
