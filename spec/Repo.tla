------------------------------- MODULE Repo -------------------------------
(* The repository as a sequential state machine: one action per command.      *)
(* Object identity is perfect hashing: a stored tree is the tree itself; a    *)
(* commit is its record, interned in `commits` (equal records are one object).*)
EXTENDS Tree, Json

CONSTANTS Refs,        \* ref names ("master" among them)
          Remotes,     \* remote names; the local side is Local
          Msgs,        \* commit messages
          WTs,         \* working trees an edit may produce; {} = single-entry edits anywhere
          XSets,       \* exclusion sets a command may be given
          Acts,        \* enabled action kinds
          MaxCommits, MaxLog, MaxRoots,
          EmitMode     \* "none" | "lts" | "sim"

Local == "local"
None  == "none"

VARIABLES exists,   \* the repository has been initialised
          wt,       \* working tree
          roots,    \* sequence of trees inserted explicitly
          commits,  \* sequence of commit records
          log,      \* <<ref, remote>> -> sequence of commit indexes, oldest first
          head,     \* ref name or None
          act, out  \* last command and its visible result (history only)
core == <<exists, wt, roots, commits, log, head>>
vars == <<exists, wt, roots, commits, log, head, act, out>>

Slots == Refs \X (Remotes \cup {Local})
Last1(s) == s[Len(s)]
Tip(r, m) == IF log[<<r, m>>] = <<>> THEN 0 ELSE Last1(log[<<r, m>>])
HeadTip == IF head = None THEN 0 ELSE Tip(head, Local)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

Init ==
  /\ exists = ("init" \notin Acts)
  /\ wt = EmptyDir
  /\ roots = <<>>
  /\ commits = <<>>
  /\ log = [s \in Slots |-> <<>>]
  /\ head = IF "init" \in Acts THEN None ELSE "master"
  /\ act = [a |-> "start"]
  /\ out = [ok |-> TRUE]

Same(vs) == UNCHANGED vs
Fail(a) == act' = a /\ out' = [ok |-> FALSE] /\ UNCHANGED core
Done(a, o) == act' = a /\ out' = o
Query(a, o) == Done(a, o) /\ UNCHANGED core

(* ---------------- working-tree edits ---------------- *)
RECURSIVE SetAt(_, _, _), DelAt(_, _), At(_, _)
SetAt(i, p, v) ==
  IF Len(p) = 0 THEN v
  ELSE LET f == IF IsDir(i) THEN i.e ELSE NoKids
           old == IF p[1] \in DOMAIN f THEN f[p[1]] ELSE EmptyDir
       IN Dir([n \in DOMAIN f \cup {p[1]} |-> IF n = p[1] THEN SetAt(old, Tail(p), v) ELSE f[n]])
DelAt(i, p) ==
  IF Len(p) = 1 THEN Dir([n \in DOMAIN i.e \ {p[1]} |-> i.e[n]])
  ELSE Dir([i.e EXCEPT ![p[1]] = DelAt(i.e[p[1]], Tail(p))])
At(i, p) == IF p = <<>> THEN i ELSE At(i.e[p[1]], Tail(p))
PathSet == UNION {[1..d -> Names] : d \in 1..MaxDepth}
Edit ==
  /\ "edit" \in Acts
  /\ IF WTs # {} THEN wt' \in WTs \ {wt}
     ELSE \E p \in PathSet :
            \/ \E v \in {File(c) : c \in Contents} \cup {EmptyDir} : wt' = SetAt(wt, p, v)
            \/ p \in PathsOf(wt) /\ wt' = DelAt(wt, p)
  /\ wt' # wt
  /\ Done([a |-> "edit"], [ok |-> TRUE])
  /\ UNCHANGED <<exists, roots, commits, log, head>>

(* ---------------- commands ---------------- *)
InitCmd ==
  /\ "init" \in Acts
  /\ exists' = TRUE
  /\ head' = IF head = None THEN "master" ELSE head
  /\ Done([a |-> "init"], [ok |-> TRUE])
  /\ UNCHANGED <<wt, roots, commits, log>>

AddRoot(t) == roots' = IF \E i \in DOMAIN roots : roots[i] = t THEN roots ELSE Append(roots, t)
RootId(t) == IF \E i \in DOMAIN roots : roots[i] = t THEN CHOOSE i \in DOMAIN roots : roots[i] = t ELSE Len(roots) + 1

Insert ==
  /\ "insert" \in Acts /\ exists
  /\ \E p \in PathsOf(wt) \cup {<<>>}, x \in XSets :
       LET t == Snapshot(At(wt, p), x) IN
       /\ RootId(t) <= MaxRoots
       /\ AddRoot(t)
       /\ Done([a |-> "insert", p |-> JoinPath(p), x |-> x], [ok |-> TRUE, root |-> RootId(t)])
  /\ UNCHANGED <<exists, wt, commits, log, head>>

CommitId(rec) == IF \E i \in DOMAIN commits : commits[i] = rec
                 THEN CHOOSE i \in DOMAIN commits : commits[i] = rec ELSE Len(commits) + 1
AddCommit(rec) == commits' = IF CommitId(rec) > Len(commits) THEN Append(commits, rec) ELSE commits
Push(r, m, id) == log' = [log EXCEPT ![<<r, m>>] = Append(@, id)]
RefArgs == Refs \cup {None}

Commit ==
  /\ "commit" \in Acts /\ exists
  /\ \E ra \in RefArgs, msg \in Msgs, x \in XSets,
        p \in (IF "commitpath" \in Acts THEN PathsOf(wt) ELSE {}) \cup {<<>>} :
       LET r == IF ra = None THEN head ELSE ra
           a == [a |-> "commit", ref |-> ra, msg |-> msg, x |-> x, p |-> JoinPath(p)]
       IN IF r = None THEN Fail(a)
          ELSE LET rec == [tree |-> Snapshot(At(wt, p), x),
                           par |-> IF log[<<r, Local>>] = <<>> THEN <<>> ELSE <<Tip(r, Local)>>, msg |-> msg]
               IN /\ CommitId(rec) <= MaxCommits /\ Len(log[<<r, Local>>]) < MaxLog
                  /\ AddCommit(rec) /\ Push(r, Local, CommitId(rec))
                  /\ Done(a, [ok |-> TRUE, id |-> CommitId(rec)])
                  /\ UNCHANGED <<exists, wt, roots, head>>

\* debug commit-tree: any stored tree, any stored commits as parents, in an order fixed by their keys
CommitTree ==
  /\ "committree" \in Acts /\ exists
  /\ \E t \in {roots[i] : i \in DOMAIN roots} \cup {commits[i].tree : i \in DOMAIN commits} :
     \E ps \in {<<>>} \cup {<<i>> : i \in DOMAIN commits} \cup {<<i, j>> : i \in DOMAIN commits, j \in DOMAIN commits}
                 \cup (IF "committree3" \in Acts THEN {<<i, j, Len(commits)>> : i \in DOMAIN commits, j \in DOMAIN commits} ELSE {}) :
       LET rec == [tree |-> t, par |-> ps, msg |-> ""] IN
       /\ (\A n \in 2 .. Len(ps) : ps[n - 1] <= ps[n])     \* a parent may be named twice; the program orders parents by key: which order is not the model's business
       /\ CommitId(rec) <= MaxCommits
       /\ AddCommit(rec)
       /\ Done([a |-> "committree", t |-> Show(t), f |-> ~IsDir(t), par |-> ps], [ok |-> TRUE, id |-> CommitId(rec)])
  /\ UNCHANGED <<exists, wt, roots, log, head>>

RefUpdate ==
  /\ "refupdate" \in Acts /\ exists
  /\ \E ra \in RefArgs, id \in DOMAIN commits :
       LET r == IF ra = None THEN head ELSE ra
           a == [a |-> "refupdate", ref |-> ra, id |-> id]
       IN IF r = None THEN Fail(a)
          ELSE /\ Len(log[<<r, Local>>]) < MaxLog /\ Push(r, Local, id) /\ Done(a, [ok |-> TRUE])
               /\ UNCHANGED <<exists, wt, roots, commits, head>>
ReflogPush ==
  /\ "reflogpush" \in Acts /\ exists
  /\ \E r \in Refs, m \in Remotes \cup {Local}, id \in DOMAIN commits :
       /\ Len(log[<<r, m>>]) < MaxLog
       /\ Push(r, m, id)
       /\ Done([a |-> "reflogpush", ref |-> r, rem |-> m, id |-> id], [ok |-> TRUE])
  /\ UNCHANGED <<exists, wt, roots, commits, head>>
\* pointing a ref at an object that is not a commit ("alien": of a kind this version does not know, stored by another one)
RefBad ==
  /\ "refbad" \in Acts /\ exists
  /\ \E ra \in Refs, kind \in {"tree", "file", "blob", "alien"}, via \in {"refupdate", "reflogpush"} :
       Fail([a |-> "refbad", ref |-> ra, kind |-> kind, via |-> via])

SetHead ==
  /\ "sethead" \in Acts /\ exists
  /\ \E r \in Refs : head' = r /\ Done([a |-> "sethead", ref |-> r], [ok |-> TRUE])
  /\ UNCHANGED <<exists, wt, roots, commits, log>>

HeadTree == IF HeadTip = 0 THEN EmptyDir ELSE commits[HeadTip].tree
CheckoutHead ==
  /\ "checkouthead" \in Acts /\ exists
  /\ \E r \in Refs, x \in XSets :
       LET a == [a |-> "checkouthead", ref |-> r, x |-> x]
       IN IF head = None THEN Fail(a)
          ELSE IF Flat(Snapshot(wt, x)) = Flat(HeadTree)
          THEN head' = r /\ Done(a, [ok |-> TRUE]) /\ UNCHANGED <<exists, wt, roots, commits, log>>
          ELSE Fail(a)
CheckoutCmd ==
  /\ "checkout" \in Acts /\ exists
  /\ \E x \in XSets :
       LET a == [a |-> "checkout", x |-> x]
       IN IF HeadTip = 0 \/ ~IsDir(HeadTree) THEN Fail(a)
          ELSE LET r == Checkout(wt, HeadTree, x)
               IN /\ r.ok /\ wt' = r.i /\ Done(a, [ok |-> TRUE]) /\ UNCHANGED <<exists, roots, commits, log, head>>

\* initialising a repository of its own inside the working tree; the outer one is unaffected
InitNested ==
  /\ "initnested" \in Acts /\ exists
  /\ act' = [a |-> "initnested"] /\ out' = [ok |-> TRUE] /\ UNCHANGED core

(* ---------------- queries ---------------- *)
PD1(s) == {<<JoinPath(y[1]), IF y[2] THEN "D" ELSE "F">> : y \in s}
DiffOut(from, to) == LET r == Compare(from, to) IN
  [added |-> PD1(Fold(r.added)), deleted |-> PD1(Fold(r.deleted)), modified |-> {JoinPath(p) : p \in r.modified}]
Status ==
  /\ "status" \in Acts /\ exists
  /\ \E x \in XSets :
       LET a == [a |-> "status", x |-> x] IN
       IF head = None THEN Fail(a)
       ELSE IF HeadTip = 0 THEN Query(a, [ok |-> TRUE, head |-> head, tip |-> 0])
       ELSE Query(a, [ok |-> TRUE, head |-> head, tip |-> HeadTip, d |-> DiffOut(Flat(Snapshot(wt, x)), Flat(HeadTree))])
CompareCmd ==
  /\ "compare" \in Acts /\ exists
  /\ \E i \in DOMAIN roots, x \in XSets :
       Query([a |-> "compare", root |-> i, x |-> x],
             [ok |-> TRUE, d |-> DiffOut(Flat(Snapshot(wt, x)), Flat(roots[i]))])
RefGet ==
  /\ "refget" \in Acts /\ exists
  /\ \E r \in Refs, m \in Remotes \cup {Local} :
       IF Tip(r, m) = 0 THEN Fail([a |-> "refget", ref |-> r, rem |-> m])
       ELSE Query([a |-> "refget", ref |-> r, rem |-> m], [ok |-> TRUE, id |-> Tip(r, m)])
RefLog ==
  /\ "reflog" \in Acts /\ exists
  /\ \E r \in RefArgs, m \in Remotes \cup {Local} :
       LET a == [a |-> "reflog", ref |-> r, rem |-> m]
           n == IF r = None THEN head ELSE r
       IN IF n = None \/ (r = None /\ m # Local) THEN r = None /\ m = Local /\ Fail(a)
          ELSE Query(a, [ok |-> TRUE, ids |-> Rev(log[<<n, m>>])])
Fetch ==
  /\ "fetch" \in Acts /\ exists
  /\ \E t \in {roots[i] : i \in DOMAIN roots} \cup {commits[i].tree : i \in DOMAIN commits} :
       Query([a |-> "fetch", t |-> Show(t), f |-> ~IsDir(t)], [ok |-> TRUE, t |-> Show(t)])
GetHead ==
  /\ "gethead" \in Acts /\ exists
  /\ Query([a |-> "gethead"], [ok |-> TRUE, head |-> head])

\* log and show: the first-parent chain, each with its changes relative to its first parent
ParTree(c) == IF commits[c].par = <<>> THEN EmptyDir ELSE commits[commits[c].par[1]].tree
Entry(c) == [id |-> c, msg |-> commits[c].msg,
             changed |-> LET r == Compare(Flat(commits[c].tree), Flat(ParTree(c))) IN
                {JoinPath(y[1]) : y \in {z \in r.added \cup r.deleted : ~z[2]}} \cup {JoinPath(p) : p \in r.modified}]
RECURSIVE Chain(_)
Chain(c) == <<c>> \o (IF commits[c].par = <<>> THEN <<>> ELSE Chain(commits[c].par[1]))
LogCmd ==
  /\ "log" \in Acts /\ exists
  /\ \E c \in {0} \cup DOMAIN commits, a \in {"log", "show"} :
       LET s == IF c = 0 THEN HeadTip ELSE c
           l == [a |-> a, id |-> c]
       IN IF s = 0 THEN Fail(l)
          ELSE LET ch == IF a = "log" THEN Chain(s) ELSE <<s>>
               IN Query(l, [ok |-> TRUE, chain |-> [i \in 1..Len(ch) |-> Entry(ch[i])]])

\* show of a stored file prints its content
ShowFile ==
  /\ "showfile" \in Acts /\ exists
  /\ \E t \in {roots[i] : i \in DOMAIN roots} \cup {commits[i].tree : i \in DOMAIN commits} :
       \E f \in {y \in Show(t) : y[2] # "D"} :
         Query([a |-> "showfile", t |-> Show(t), f |-> ~IsDir(t), p |-> f[1]], [ok |-> TRUE, c |-> f[2]])

(* ---------------- listings ---------------- *)
Trees == {roots[i] : i \in DOMAIN roots} \cup {commits[i].tree : i \in DOMAIN commits}
\* every entry of a stored tree, once
WalkTree ==
  /\ "walktree" \in Acts /\ exists
  /\ \E t \in Trees : Query([a |-> "walktree", t |-> Show(t), f |-> ~IsDir(t)], [ok |-> TRUE, t |-> Show(t)])
\* every file and directory below a directory, once; there is nothing below a file
WalkFs ==
  /\ "walkfs" \in Acts
  /\ \E p \in PathsOf(wt) \cup {<<>>} :
       LET a == [a |-> "walkfs", p |-> JoinPath(p)] IN
       IF IsDir(At(wt, p)) THEN Query(a, [ok |-> TRUE, t |-> Show(At(wt, p))]) ELSE Fail(a)
\* one object: its type, the objects it refers to in order
Pretty ==
  /\ "pretty" \in Acts /\ exists
  /\ \/ \E t \in Trees : \E p \in PathsOf(t) \cup {<<>>} :
          Query([a |-> "pretty", t |-> Show(t), f |-> ~IsDir(t), p |-> JoinPath(p)],
                IF IsDir(At(t, p)) THEN [ok |-> TRUE, type |-> "FSItemDir", names |-> DOMAIN At(t, p).e]
                ELSE [ok |-> TRUE, type |-> "FSItemFile", c |-> At(t, p).c])
     \/ \E i \in DOMAIN commits :
          Query([a |-> "pretty", id |-> i],
                [ok |-> TRUE, type |-> "Commit", t |-> Show(commits[i].tree), f |-> ~IsDir(commits[i].tree),
                 par |-> commits[i].par, msg |-> commits[i].msg])

(* ---------------- commands that fail part way ---------------- *)
FailKinds == {"nopath", "fifo", "badglob", "nokey", "badkey", "noref", "destfile", "dangling", "badname", "ambiguous", "notree"}
FailCmd ==
  /\ "fail" \in Acts /\ exists
  /\ \E k \in FailKinds, c \in {"insert", "commit", "fetch", "refupdate", "status", "show", "log", "compare", "reflogpush", "committree"} :
       Fail([a |-> "fail", kind |-> k, cmd |-> c])

Next == \/ Edit \/ InitCmd \/ InitNested \/ Insert \/ Commit \/ CommitTree \/ RefUpdate \/ ReflogPush \/ RefBad \/ SetHead
        \/ CheckoutHead \/ CheckoutCmd \/ Status \/ CompareCmd \/ RefGet \/ RefLog \/ Fetch \/ GetHead \/ LogCmd \/ ShowFile \/ FailCmd
        \/ WalkTree \/ WalkFs \/ Pretty
Spec == Init /\ [][Next]_vars

(* ---------------- properties of the model ---------------- *)
TypeOK == /\ head \in Refs \cup {None}
          /\ \A s \in Slots : \A i \in DOMAIN log[s] : log[s][i] \in DOMAIN commits
          /\ \A i, j \in DOMAIN commits : commits[i] = commits[j] => i = j
\* references never dangle: parents are earlier commits, ref entries are commits
NoDangling == /\ \A i \in DOMAIN commits : \A k \in DOMAIN commits[i].par : commits[i].par[k] < i
              /\ \A s \in Slots : \A i \in DOMAIN log[s] : log[s][i] \in 1..Len(commits)
IsPrefix1(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
AppendOnly == [][ /\ IsPrefix1(commits, commits')
                  /\ IsPrefix1(roots, roots')
                  /\ \A s \in Slots : IsPrefix1(log[s], log'[s]) ]_vars
\* a successful commit extends exactly one local ref by one linked entry
CommitLinks == [][ (act'.a = "commit" /\ out'.ok) =>
   LET r == IF act'.ref = None THEN head ELSE act'.ref IN
   /\ log'[<<r, Local>>] = Append(log[<<r, Local>>], out'.id)
   /\ \A s \in Slots \ {<<r, Local>>} : log'[s] = log[s]
   /\ head' = head
   /\ commits'[out'.id].msg = act'.msg
   /\ commits'[out'.id].par = (IF log[<<r, Local>>] = <<>> THEN <<>> ELSE <<Last1(log[<<r, Local>>])>>) ]_vars
FailNothing == [][ ~out'.ok => UNCHANGED core ]_vars
Mutators == {"edit", "init", "insert", "commit", "committree", "refupdate", "reflogpush", "sethead", "checkouthead", "checkout"}
QueriesPure == [][ act'.a \notin Mutators => UNCHANGED core ]_vars
HeadOnlyBy == [][ head' # head => act'.a \in {"init", "sethead", "checkouthead"} ]_vars
CleanSwitch == [][ act'.a = "checkouthead" /\ head # None =>
    (out'.ok <=> Flat(Snapshot(wt, act'.x)) = Flat(HeadTree)) /\ (out'.ok => head' = act'.ref) ]_vars
InitOnce == [][ act'.a = "init" => (exists => head' = head) /\ roots' = roots /\ commits' = commits /\ log' = log ]_vars
LogComplete == [][ (act'.a = "log" /\ out'.ok) =>
    LET ch == out'.chain IN
    /\ ch[1].id = (IF act'.id = 0 THEN HeadTip ELSE act'.id)
    /\ commits[ch[Len(ch)].id].par = <<>>
    /\ \A i \in 1..Len(ch)-1 : ch[i+1].id = commits[ch[i].id].par[1]
    /\ \A i, j \in 1..Len(ch) : ch[i].id = ch[j].id => i = j ]_vars
CheckoutExact == [][ (act'.a = "checkout" /\ out'.ok /\ act'.x = {}) => wt' = HeadTree ]_vars

(* ---------------- emission ---------------- *)
View == core
St == [e |-> exists, wt |-> Show(wt), rt |-> [i \in DOMAIN roots |-> Show(roots[i])], rf |-> [i \in DOMAIN roots |-> ~IsDir(roots[i])],
       cm |-> [i \in DOMAIN commits |-> [t |-> Show(commits[i].tree), f |-> ~IsDir(commits[i].tree), par |-> commits[i].par, msg |-> commits[i].msg]],
       lg |-> {<<s[1], s[2], log[s]>> : s \in {z \in Slots : log[z] # <<>>}}, hd |-> head]
EmitLts == EmitMode = "lts" => PrintT("@@" \o ToJson([s |-> St, a |-> act', o |-> out', d |-> St']))
\* in simulation the constraint sees every candidate step of a state; print each chosen state once
ASSUME TLCSet(42, 0)
EmitSim == EmitMode = "sim" =>
  LET l == TLCGet("level") IN
  IF TLCGet(42) = l THEN TRUE
  ELSE TLCSet(42, l) /\ PrintT("@@" \o ToJson([l |-> l, a |-> act, o |-> out, d |-> St]))
=============================================================================
