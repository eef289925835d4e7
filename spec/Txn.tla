-------------------------------- MODULE Txn --------------------------------
(* Several processes on one repository file, at the granularity of the    *)
(* byte locks the storage engine takes: PEND, RES and the SHARED range.   *)
(* A process executes a program, a sequence of lock requests as recorded  *)
(* from the real command running alone:                                   *)
(*   r PEND / r SHARED   start reading          (waits while excluded)    *)
(*   u ...               release                                          *)
(*   w RES               announce writing       (fails if somebody has)   *)
(*   w PEND, w SHARED    about to commit        (waits for readers)       *)
(* Data is a version number: a transaction reads it when it gets SHARED   *)
(* and commits base + 1 when it releases an exclusive lock.               *)
(* Checked: exclusion, no lost update, reads are of committed versions.   *)
(* The module also generates schedules, as sequences of run lengths.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Modes,       \* how to schedule: one is chosen for each behaviour, a record with
                       \*   run: a process runs at most this many steps before another may be chosen
                       \*   sw: after this many runs everybody runs to the end
                       \*   kill: may processes be killed
          MaxWait,     \* a process gives up after waiting this often
          EmitSched    \* print finished schedules

Progs == JsonDeserialize("progs.json")
P == 1 .. Len(Progs)
Bytes == {"PEND", "RES", "SHR"}

VARIABLES mode, pc, held, waits, st, ver, base, cur, quota, sched
vars == <<mode, pc, held, waits, st, ver, base, cur, quota, sched>>

Init == /\ mode \in Modes
        /\ pc = [p \in P |-> 1]
        /\ held = [p \in P |-> [b \in Bytes |-> "-"]]
        /\ waits = [p \in P |-> 0]
        /\ st = [p \in P |-> "run"]
        /\ ver = 0
        /\ base = [p \in P |-> 0]
        /\ cur = 0 /\ quota = 0
        /\ sched = <<>>

Op(p) == Progs[p][pc[p]]
Free(p, b, k) == \A q \in P \ {p} : IF k = "r" THEN held[q][b] # "w" ELSE held[q][b] = "-"
(* a reader may not start while PEND is held for writing                  *)

Idle == IF cur = 0 \/ quota = 0 THEN TRUE ELSE st[cur] # "run"

Choose == /\ Idle
          /\ \E p \in P, n \in IF Len(sched) < mode.sw THEN 1 .. mode.run ELSE {1000} :
               /\ st[p] = "run"
               /\ p # cur \/ ~\E q \in P : q # p /\ st[q] = "run"
               /\ cur' = p /\ quota' = n
               /\ sched' = IF EmitSched THEN Append(sched, [p |-> p, n |-> n, k |-> FALSE]) ELSE sched
          /\ UNCHANGED <<pc, held, waits, st, ver, base>>

Tick(p) == quota' = quota - 1 /\ cur' = cur /\ sched' = sched

Finish(p) == IF pc'[p] > Len(Progs[p]) THEN st' = [st EXCEPT ![p] = "ok"] ELSE st' = st

Get == /\ ~Idle
       /\ LET p == cur
              o == Op(p) IN
          /\ o.k \in {"r", "w"} /\ Free(p, o.b, o.k)
          /\ held' = [held EXCEPT ![p][o.b] = o.k]
          /\ base' = IF o.k = "r" /\ o.b = "SHR" /\ held[p]["SHR"] = "-" THEN [base EXCEPT ![p] = ver] ELSE base
          \* leaving exclusive by downgrading commits, like releasing
          /\ ver' = IF o.k = "r" /\ held[p]["SHR"] = "w" THEN base[p] + 1 ELSE ver
          /\ pc' = [pc EXCEPT ![p] = @ + 1]
          /\ Finish(p) /\ Tick(p)
          /\ UNCHANGED waits

Release == /\ ~Idle
           /\ LET p == cur
                  o == Op(p) IN
              /\ o.k = "u"
              /\ ver' = IF o.b \in {"ALL", "SHR"} /\ held[p]["SHR"] = "w" THEN base[p] + 1 ELSE ver
              /\ held' = [held EXCEPT ![p] = [b \in Bytes |-> IF o.b = "ALL" \/ o.b = b \/ (o.b = "PR" /\ b # "SHR") THEN "-" ELSE @[b]]]
              /\ pc' = [pc EXCEPT ![p] = @ + 1]
              /\ Finish(p) /\ Tick(p)
              /\ UNCHANGED <<waits, base>>

Blocked == /\ ~Idle
           /\ LET p == cur
                  o == Op(p) IN
              /\ o.k \in {"r", "w"} /\ ~Free(p, o.b, o.k)
              /\ IF o.b = "RES" \/ waits[p] >= MaxWait
                 THEN /\ st' = [st EXCEPT ![p] = "failed"]
                      /\ held' = [held EXCEPT ![p] = [b \in Bytes |-> "-"]]
                      /\ waits' = waits
                 ELSE /\ waits' = [waits EXCEPT ![p] = @ + 1] /\ st' = st /\ held' = held
              /\ Tick(p)
              /\ UNCHANGED <<pc, ver, base>>

Kill == /\ mode.kill /\ ~Idle
        /\ \A p \in P : st[p] # "dead"
        /\ st' = [st EXCEPT ![cur] = "dead"]
        /\ held' = [held EXCEPT ![cur] = [b \in Bytes |-> "-"]]
        /\ sched' = IF ~EmitSched THEN sched ELSE Append(SubSeq(sched, 1, Len(sched) - 1), [sched[Len(sched)] EXCEPT !.n = @ - quota, !.k = TRUE])
        /\ quota' = 0 /\ cur' = cur
        /\ UNCHANGED <<pc, waits, ver, base>>

Over == \A p \in P : st[p] # "run"
Emit == (EmitSched /\ Over) => PrintT("@@" \o ToJson([sched |-> sched, st |-> st]))

Next == mode' = mode /\ (Choose \/ Get \/ Release \/ Blocked \/ Kill)

One == {[run |-> 1, sw |-> 1000, kill |-> TRUE]}
Long == {[run |-> 40, sw |-> 2, kill |-> FALSE], [run |-> 40, sw |-> 4, kill |-> FALSE], [run |-> 40, sw |-> 3, kill |-> TRUE],
         [run |-> 6, sw |-> 1000, kill |-> FALSE], [run |-> 90, sw |-> 1000, kill |-> FALSE], [run |-> 2, sw |-> 1000, kill |-> FALSE]}
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------ properties *)
Exclusion == /\ \A p, q \in P : p # q /\ held[p]["SHR"] = "w" => held[q]["SHR"] = "-"
             /\ \A p, q \in P : p # q => ~(held[p]["RES"] = "w" /\ held[q]["RES"] = "w")
(* no lost update: what is overwritten is what was read                   *)
NoLostUpdate == [][ver' # ver => \E p \in P : base[p] = ver /\ ver' = ver + 1]_vars
Committed == \A p \in P : base[p] <= ver
=============================================================================
