------------------------------- MODULE Tree -------------------------------
(* Directory trees, their encoding as content-addressed objects, extraction, *)
(* comparison, folding and checkout - the algorithms of dir.rs and diff.rs,  *)
(* each next to the declarative statement of what it must achieve.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Names,      \* file names
          Contents,   \* file contents (opaque)
          MaxDepth    \* nesting

File(c)  == [k |-> "F", c |-> c]
Dir(f)   == [k |-> "D", e |-> f]
NoKids   == [n \in {} |-> n]
EmptyDir == Dir(NoKids)

IsDir(i) == i.k = "D"

RECURSIVE ItemsD(_)
ItemsD(d) == {File(c) : c \in Contents} \cup
             (IF d = 0 THEN {EmptyDir}
              ELSE {Dir(f) : f \in UNION {[S -> ItemsD(d-1)] : S \in SUBSET Names}})
\* all directory trees with at most MaxDepth levels of names
DirTrees == {Dir(f) : f \in UNION {[S -> ItemsD(MaxDepth-1)] : S \in SUBSET Names}}

(* ---------------- flat view: path (sequence of names) -> "D" or content ---------------- *)
RECURSIVE FlatSet(_, _)
FlatSet(i, p) ==
  IF IsDir(i)
  THEN (IF p = <<>> THEN {} ELSE {[p |-> p, d |-> TRUE, c |-> "D"]})
       \cup UNION {FlatSet(i.e[n], Append(p, n)) : n \in DOMAIN i.e}
  ELSE {[p |-> p, d |-> FALSE, c |-> i.c]}
Flat(i) == FlatSet(i, <<>>)
PathsOf(i) == {r.p : r \in Flat(i)}

RECURSIVE JoinPath(_)
JoinPath(p) == IF p = <<>> THEN "" ELSE IF Len(p) = 1 THEN p[1]
               ELSE p[1] \o "/" \o JoinPath(Tail(p))
Show(i) == {<<JoinPath(r.p), r.c>> : r \in Flat(i)}

\* declarative: removing every entry whose own name is excluded, with everything below
Excl(i, X) == {r \in Flat(i) : \A k \in 1..Len(r.p) : r.p[k] \notin X}

(* ---------------- snapshot: put_fs_item with a filter ---------------- *)
\* The filter is consulted once per directory entry, before descending.
RECURSIVE Snapshot(_, _)
Snapshot(i, X) ==
  IF ~IsDir(i) THEN i
  ELSE LET S == {n \in DOMAIN i.e : n \notin X}
       IN Dir([n \in S |-> Snapshot(i.e[n], X)])

SnapshotOK(i, X) == Flat(Snapshot(i, X)) = Excl(i, X)

(* ---------------- objects: perfect hash, so the key of an object is the object ---------------- *)
RECURSIVE Obj(_, _)
\* ord: the order of directory entries (the code sorts them, so it is the same for every directory)
Obj(i, ord) ==
  IF IsDir(i)
  THEN LET s == SelectSeq(ord, LAMBDA n : n \in DOMAIN i.e)
       IN [t |-> "dir", names |-> s, keys |-> [j \in 1..Len(s) |-> Obj(i.e[s[j]], ord)]]
  ELSE [t |-> "file", names |-> <<>>, keys |-> <<[t |-> "blob", c |-> i.c]>>]

RECURSIVE ObjsOf(_)
ObjsOf(o) == {o} \cup (IF o.t = "blob" THEN {} ELSE UNION {ObjsOf(o.keys[j]) : j \in 1..Len(o.keys)})

(* ---------------- extraction: get_fs_item onto an existing destination ---------------- *)
\* fs: set of flat records relative to the destination root; the root itself exists iff root = TRUE.
Node(fs, p) == LET m == {r \in fs : r.p = p} IN IF m = {} THEN "none" ELSE IF (CHOOSE r \in m : TRUE).d THEN "dir" ELSE "file"
AllPre(p) == {SubSeq(p, 1, k) : k \in 1..Len(p)}
MkdirAll(fs, p) == \* create p and its ancestors; fails if one of them is a file
  IF \E q \in AllPre(p) : Node(fs, q) = "file" THEN [ok |-> FALSE, fs |-> fs]
  ELSE [ok |-> TRUE, fs |-> fs \cup {[p |-> q, d |-> TRUE, c |-> "D"] : q \in {q \in AllPre(p) : Node(fs, q) = "none"}}]

RECURSIVE Extract(_, _, _), ExtractKids(_, _, _, _)
Extract(o, p, fs) ==
  IF o.t = "dir"
  THEN LET m == MkdirAll(fs, p)
       IN IF ~m.ok THEN m ELSE ExtractKids(o, 1, p, m.fs)
  ELSE LET m == MkdirAll(fs, SubSeq(p, 1, Len(p) - 1))
       IN IF ~m.ok THEN m
          ELSE IF Node(m.fs, p) # "none" THEN [ok |-> FALSE, fs |-> m.fs]
          ELSE [ok |-> TRUE, fs |-> m.fs \cup {[p |-> p, d |-> FALSE, c |-> o.keys[1].c]}]
ExtractKids(o, j, p, fs) ==
  IF j > Len(o.names) THEN [ok |-> TRUE, fs |-> fs]
  ELSE LET r == Extract(o.keys[j], Append(p, o.names[j]), fs)
       IN IF r.ok THEN ExtractKids(o, j + 1, p, r.fs) ELSE r

\* what fetching a onto a destination holding b must do
FetchOK(a, b, ord) ==
  LET r == Extract(Obj(a, ord), <<>>, Flat(b))
      clash == \E x \in Flat(a), y \in Flat(b) : x.p = y.p /\ (~x.d \/ ~y.d)
  IN /\ r.ok <=> ~clash
     /\ Flat(b) \subseteq r.fs                                   \* nothing existing is touched
     /\ r.ok => r.fs = Flat(b) \cup Flat(a)
     /\ ~r.ok => r.fs \subseteq Flat(b) \cup Flat(a)

(* ---------------- comparison: diff.rs compare and simplify ---------------- *)
PD(s) == {<<r.p, r.d>> : r \in s}
\* algorithm: sets of (path, is_dir) pairs
Compare(from, to) ==
  LET F == PD(from)  T == PD(to)
  IN [added    |-> F \ T,
      deleted  |-> T \ F,
      modified |-> {x[1] : x \in {y \in F \cap T : ~y[2] /\
                     (CHOOSE r \in from : r.p = y[1]).c # (CHOOSE r \in to : r.p = y[1]).c}}]
IsPre(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
\* entries below an added (deleted) directory are folded into it
Fold(S) == {x \in S : ~\E y \in S : y # x /\ IsPre(y[1], x[1])}

\* declarative meaning
DiffOK(from, to, r) ==
  LET at(s, p) == {x \in s : x.p = p}
  IN /\ \A x \in r.added   : x[1] \in {y.p : y \in from} /\ at(from, x[1]) # at(to, x[1])
     /\ \A x \in r.deleted : x[1] \in {y.p : y \in to} /\ at(from, x[1]) # at(to, x[1])
     /\ \A p \in {y.p : y \in from \cup to} :
          LET f == at(from, p)  t == at(to, p)
              a == \E x \in r.added : x[1] = p
              d == \E x \in r.deleted : x[1] = p
              m == p \in r.modified
              kind(s) == IF s = {} THEN "none" ELSE IF (CHOOSE x \in s : TRUE).d THEN "dir" ELSE "file"
          IN CASE f = t -> ~a /\ ~d /\ ~m
               [] f # t /\ kind(f) = kind(t) -> ~a /\ ~d /\ m     \* two files, different content
               [] kind(f) # kind(t) -> (a <=> f # {}) /\ (d <=> t # {}) /\ ~m
FoldOK(S) == LET T == Fold(S) IN
  /\ T \subseteq S
  /\ \A x \in S : \E y \in T : IsPre(y[1], x[1])
  /\ \A x, y \in T : IsPre(x[1], y[1]) => x = y

(* ---------------- checkout: dir.rs checkout_fs_item ---------------- *)
\* wt: current item, tr: tree item to reach, X: excluded names (never read, written or removed)
RECURSIVE Prune(_, _)
\* removal of an unwanted entry honouring exclusions: returns what is left of it ("gone" or an item)
Prune(i, X) ==
  IF ~IsDir(i) THEN [gone |-> TRUE, i |-> i]
  ELSE LET kids == [n \in DOMAIN i.e |-> IF n \in X THEN [gone |-> FALSE, i |-> i.e[n]] ELSE Prune(i.e[n], X)]
           left == {n \in DOMAIN i.e : ~kids[n].gone}
       IN IF left = {} THEN [gone |-> TRUE, i |-> i]
          ELSE [gone |-> FALSE, i |-> Dir([n \in left |-> kids[n].i])]

\* Files that are excluded, with the directories needed to hold them
ExclFlat(i, X) == {r \in Flat(i) : \E k \in 1..Len(r.p) : r.p[k] \in X}

RECURSIVE Checkout(_, _, _)
\* has: whether the entry exists; result [ok, i]
Checkout(wt, tr, X) ==
  IF ~IsDir(tr) THEN
     (IF ~IsDir(wt) THEN [ok |-> TRUE, i |-> tr]
      ELSE LET p == Prune(wt, X) IN IF p.gone THEN [ok |-> TRUE, i |-> tr] ELSE [ok |-> FALSE, i |-> p.i])
  ELSE LET cur   == IF IsDir(wt) THEN wt.e ELSE NoKids
           want  == DOMAIN tr.e \ (DOMAIN cur \cap X)    \* an existing excluded entry is left alone
           extra == {n \in DOMAIN cur : n \notin X /\ n \notin DOMAIN tr.e}
           pr    == [n \in extra |-> Prune(cur[n], X)]
           keepX == {n \in extra : ~pr[n].gone}
           sub   == [n \in want |-> IF n \in DOMAIN cur THEN Checkout(cur[n], tr.e[n], X)
                                    ELSE Checkout(EmptyDir, tr.e[n], X)]
           res   == [n \in (DOMAIN cur \cap X) \cup keepX \cup want |->
                        IF n \in want THEN sub[n].i ELSE IF n \in keepX THEN pr[n].i ELSE cur[n]]
       IN [ok |-> \A n \in want : sub[n].ok, i |-> Dir(res)]
=============================================================================
