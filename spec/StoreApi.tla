------------------------------ MODULE StoreApi ------------------------------
(* The store's programming interface: connections, transactions, objects,  *)
(* ref histories and HEAD.  What the storage engine adds is that any        *)
(* operation may be refused as busy while another connection is in a        *)
(* transaction; a refused operation has no effect.                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS C,          \* connections
          K,          \* object contents
          Heads, Refs, Rems,
          MaxWrites, MaxLog, MaxVer, EmitSim, Depth

VARIABLES com,        \* what is committed, and how often anything was
          tr,         \* connection -> "closed" "idle" "open"
          snap,       \* connection -> <<>> or <<the committed state its transaction is based on>>
          own,        \* connection -> what its transaction wrote, in order
          n, last     \* steps so far, and which, for generating
vars == <<com, tr, snap, own, n, last>>

Empty == [obj |-> {}, head |-> "none", log |-> <<>>, ver |-> 0]
(* an object write is [w |-> "put", k |-> key, v |-> value]; the first      *)
(* value stored under a key stays                                           *)
Write(s, w) == CASE w.w = "put" -> IF \E o \in s.obj : o.k = w.k THEN s ELSE [s EXCEPT !.obj = @ \cup {[k |-> w.k, v |-> w.v]}]
                 [] w.w = "head" -> [s EXCEPT !.head = w.h]
                 [] w.w = "push" -> [s EXCEPT !.log = Append(@, [r |-> w.r, m |-> w.m, k |-> w.k])]
RECURSIVE WriteAll(_, _)
WriteAll(s, ws) == IF ws = <<>> THEN s ELSE WriteAll(Write(s, ws[1]), Tail(ws))

Base(c) == IF snap[c] = <<>> THEN com ELSE snap[c][1]
View(c) == IF tr[c] = "open" THEN WriteAll(Base(c), own[c]) ELSE com

(* ------------------------------------------------------------- answers   *)
Has(s, k) == \E o \in s.obj : o.k = k
Val(s, k) == (CHOOSE o \in s.obj : o.k = k).v
HistOf(s, r, m) == LET x == SelectSeq(s.log, LAMBDA e : e.r = r /\ e.m = m) IN [i \in 1 .. Len(x) |-> x[Len(x) + 1 - i].k]
Answer(s, o) ==
  CASE o.o = "get" -> IF Has(s, o.k) THEN Val(s, o.k) ELSE "absent"
    [] o.o = "exists" -> IF Has(s, o.k) THEN "yes" ELSE "no"
    [] o.o = "list" -> {x.k : x \in s.obj}
    [] o.o = "gethead" -> s.head
    [] o.o = "refget" -> IF HistOf(s, o.r, o.m) = <<>> THEN "absent" ELSE HistOf(s, o.r, o.m)[1]
    [] o.o = "refwalk" -> HistOf(s, o.r, o.m)
    [] OTHER -> "none"

Reads == {"get", "exists", "list", "gethead", "refget", "refwalk"}
Writes == {"put", "head", "push"}
Control == {"begin", "commit", "rollback", "close", "kill", "open"}

MayBeBusy(c) == \/ \E d \in C \ {c} : tr[d] = "open"
                \/ tr[c] = "open" /\ snap[c] # <<>> /\ snap[c][1] # com

Enabled(c, o) == CASE o = "open" -> tr[c] = "closed"
                   [] o = "begin" -> tr[c] = "idle"
                   [] o \in {"commit", "rollback"} -> tr[c] = "open"
                   [] OTHER -> tr[c] # "closed"

(* operation o of connection c succeeds                                     *)
Ok(c, o) ==
  /\ Enabled(c, o.o)
  /\ CASE o.o = "begin" -> /\ tr' = [tr EXCEPT ![c] = "open"] /\ snap' = [snap EXCEPT ![c] = <<>>]
                           /\ own' = [own EXCEPT ![c] = <<>>] /\ com' = com
       [] o.o = "commit" -> /\ own[c] = <<>> \/ (snap[c] # <<>> /\ [snap[c][1] EXCEPT !.ver = com.ver] = com)    \* nothing is overwritten unseen
                            /\ com' = IF own[c] = <<>> THEN com ELSE [View(c) EXCEPT !.ver = com.ver + 1]
                            /\ tr' = [tr EXCEPT ![c] = "idle"] /\ snap' = [snap EXCEPT ![c] = <<>>]
                            /\ own' = [own EXCEPT ![c] = <<>>]
       [] o.o \in {"rollback", "close", "kill"} ->
                            /\ tr' = [tr EXCEPT ![c] = IF o.o = "rollback" THEN "idle" ELSE "closed"]
                            /\ snap' = [snap EXCEPT ![c] = <<>>]
                            /\ own' = [own EXCEPT ![c] = <<>>] /\ com' = com
       [] o.o = "open" -> tr' = [tr EXCEPT ![c] = "idle"] /\ UNCHANGED <<com, snap, own>>
       [] o.o \in Reads -> /\ snap' = IF tr[c] = "open" THEN [snap EXCEPT ![c] = <<Base(c)>>] ELSE snap
                           /\ UNCHANGED <<com, tr, own>>
       [] o.o = "put" \/ o.o = "head" \/ o.o = "push" ->
             LET w == IF o.o = "put" THEN [w |-> "put", k |-> o.k, v |-> o.v]
                      ELSE IF o.o = "head" THEN [w |-> "head", h |-> o.h] ELSE [w |-> "push", r |-> o.r, m |-> o.m, k |-> o.k] IN
             IF tr[c] = "open"
             THEN own' = [own EXCEPT ![c] = Append(@, w)] /\ snap' = [snap EXCEPT ![c] = <<Base(c)>>] /\ UNCHANGED <<com, tr>>
             ELSE com' = [Write(com, w) EXCEPT !.ver = @ + 1] /\ UNCHANGED <<tr, snap, own>>

Busy(c, o) == /\ Enabled(c, o.o) /\ o.o \notin {"rollback", "close", "kill"} /\ MayBeBusy(c)
              /\ UNCHANGED <<com, tr, snap, own>>

(* ------------------------------------------------------------- generating *)
Op(o) == [o |-> o, k |-> "", v |-> "", h |-> "", r |-> "", m |-> ""]
Ops == {Op(o) : o \in Control \cup {"gethead", "list"}} \cup
       {[Op("put") EXCEPT !.k = k, !.v = v] : k \in K, v \in {"own", "other"}} \cup
       {[Op(o) EXCEPT !.k = k] : o \in {"get", "exists"}, k \in K} \cup
       {[Op("head") EXCEPT !.h = h] : h \in Heads} \cup
       {[Op("push") EXCEPT !.r = r, !.m = m, !.k = k] : r \in Refs, m \in Rems, k \in K} \cup
       {[Op(o) EXCEPT !.r = r, !.m = m] : o \in {"refget", "refwalk"}, r \in Refs, m \in Rems}

Init == /\ com = Empty
        /\ tr = [c \in C |-> "idle"] /\ snap = [c \in C |-> <<>>] /\ own = [c \in C |-> <<>>]
        /\ n = 0 /\ last = <<>>

(* the storage engine: one writer; it commits when nobody else is reading  *)
Reading(d) == tr[d] = "open" /\ snap[d] # <<>>
Writing(d) == Reading(d) /\ own[d] # <<>>
Locked(c, o) == CASE o.o \in Writes /\ tr[c] = "idle" -> \E d \in C \ {c} : Reading(d)
                  [] o.o \in Writes -> \E d \in C \ {c} : Writing(d)
                  [] o.o = "commit" -> own[c] # <<>> /\ \E d \in C \ {c} : Reading(d)
                  [] OTHER -> FALSE

Step(c, o) == /\ IF Locked(c, o) THEN Busy(c, o) ELSE Ok(c, o)
              /\ Len(own'[c]) <= MaxWrites /\ Len(com'.log) <= MaxLog /\ com'.ver <= MaxVer
              /\ last' = IF EmitSim THEN Append(last, [c |-> c, o |-> o]) ELSE last
(* when generating, kinds of operations are weighted                        *)
Weight == [begin |-> 12, commit |-> 4, rollback |-> 2, close |-> 1, kill |-> 1, open |-> 6, gethead |-> 2, list |-> 2, put |-> 5, get |-> 3,
           exists |-> 2, head |-> 3, push |-> 4, refget |-> 2, refwalk |-> 3]
Bag == UNION {{<<o, i>> : i \in 1 .. Weight[o]} : o \in DOMAIN Weight}
Pick == \E c \in {RandomElement(C)} : \E kind \in {RandomElement({b \in Bag : Enabled(c, b[1])})[1]} :
          \E o \in {RandomElement({x \in Ops : x.o = kind})} : Step(c, o)
Next == /\ n < Depth + 1
        /\ n' = n + 1
        /\ IF n = Depth THEN UNCHANGED <<com, tr, snap, own, last>> ELSE IF EmitSim THEN Pick
           ELSE \E c \in C, o \in Ops : Step(c, o)
Spec == Init /\ [][Next]_vars
Emit == (EmitSim /\ n = Depth + 1) => PrintT("@@" \o ToJson(last))

(* ----------------------------------------------------------- properties  *)
(* what a transaction wrote is not in the committed state before it        *)
(* commits, and the committed state only ever becomes a writer's view      *)
StateView == <<com, tr, snap, own>>
Isolation == [][com' # com =>
                  \/ \E c \in C : tr[c] = "open" /\ tr'[c] = "idle" /\ com' = [View(c) EXCEPT !.ver = @ + 1] /\ snap[c] = <<com>>
                  \/ \E c \in C : tr[c] = "idle" /\ tr'[c] = "idle"]_vars
(* never lost: committed objects and history stay                          *)
Monotone == [][/\ com.obj \subseteq com'.obj
               /\ IsPrefix(com.log, com'.log)]_vars
(* with the engine's locking nobody's basis is ever outdated               *)
Fresh == \A c \in C : Reading(c) => snap[c][1] = com
=============================================================================
