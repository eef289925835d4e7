------------------------------ MODULE Journal ------------------------------
(* The rollback-journal protocol the repository relies on: a transaction  *)
(* saves the old pages in a journal, syncs it, marks it valid, syncs      *)
(* again, overwrites the pages in place, syncs them, and truncates the    *)
(* journal, which commits.  Recovery after a crash plays a valid journal  *)
(* back.  Checked: at every crash point, whatever subset of unsynced      *)
(* writes is lost, recovery yields the state before or after the          *)
(* transaction, and the state after it once the commit has returned.      *)
(* Sync is a constant: with a sync left out the property fails (checked   *)
(* by the negative configurations), so it is not vacuous.                 *)
EXTENDS Disk, TLC

CONSTANTS Pages, Vals,
          SyncJournal, SyncHeader, SyncDb, SyncCommit,  \* which syncs are performed
          SyncDir,
          MaxTx

VARIABLES
  pc,        \* where in the protocol
  tx,        \* number of transactions begun
  old, new,  \* database contents before and after the current transaction
  todo,      \* pages still to be written
  hist,      \* inode -> all operations in order: the volatile content
  pend,      \* inode -> operation ids pending
  ents       \* "j" -> entry values since the last directory sync

vars == <<pc, tx, old, new, todo, hist, pend, ents>>

DB == 1
J == 2
State == [Pages -> Vals]
CHOOSEV == CHOOSE v \in Vals : TRUE

(* operations, as records; hist[f] is the sequence of all operations      *)
Init ==
  /\ pc = "idle" /\ tx = 0
  /\ old = [p \in Pages |-> CHOOSEV] /\ new = old
  /\ todo = {}
  /\ hist = [f \in {DB, J} |-> <<>>]
  /\ pend = [f \in {DB, J} |-> <<>>]
  /\ ents = ("j" :> <<0>>)

Do(f, op) == /\ hist' = [hist EXCEPT ![f] = Append(@, op)]
             /\ pend' = [pend EXCEPT ![f] = Append(@, Len(hist[f]) + 1)]

Sync(f) == pend' = [pend EXCEPT ![f] = <<>>] /\ UNCHANGED hist
Skip == UNCHANGED <<hist, pend>>

Begin == /\ pc = "idle" /\ tx < MaxTx
         /\ tx' = tx + 1
         /\ new' \in State
         /\ new' # old
         /\ todo' = {p \in Pages : new'[p] # old[p]}
         /\ pc' = "jhead"
         /\ ents' = IF ents["j"][Len(ents["j"])] = 0 THEN ("j" :> Append(ents["j"], J)) ELSE ents
         /\ UNCHANGED <<old, hist, pend>>

JHead == pc = "jhead" /\ Do(J, [k |-> "head", n |-> 0]) /\ pc' = "jpages" /\ UNCHANGED <<tx, old, new, todo, ents>>

JPages == /\ pc = "jpages"
          /\ IF todo = {} THEN /\ pc' = "jsync" /\ Skip
                               /\ todo' = {p \in Pages : new[p] # old[p]}
             ELSE \E p \in todo : /\ Do(J, [k |-> "rec", p |-> p, v |-> old[p]])
                                  /\ todo' = todo \ {p} /\ pc' = pc
          /\ UNCHANGED <<tx, old, new, ents>>

JSync == pc = "jsync" /\ (IF SyncJournal THEN Sync(J) ELSE Skip) /\ pc' = "dsync" /\ UNCHANGED <<tx, old, new, todo, ents>>
DSync == /\ pc = "dsync" /\ pc' = "jmark"
         /\ ents' = IF SyncDir THEN ("j" :> <<ents["j"][Len(ents["j"])]>>) ELSE ents
         /\ UNCHANGED <<tx, old, new, todo, hist, pend>>
JMark == pc = "jmark" /\ Do(J, [k |-> "head", n |-> Cardinality(todo)]) /\ pc' = "hsync" /\ UNCHANGED <<tx, old, new, todo, ents>>
HSync == pc = "hsync" /\ (IF SyncHeader THEN Sync(J) ELSE Skip) /\ pc' = "pages" /\ UNCHANGED <<tx, old, new, todo, ents>>

WPages == /\ pc = "pages"
          /\ IF todo = {} THEN pc' = "psync" /\ Skip /\ UNCHANGED todo
             ELSE \E p \in todo : /\ Do(DB, [k |-> "page", p |-> p, v |-> new[p]])
                                  /\ todo' = todo \ {p} /\ pc' = pc
          /\ UNCHANGED <<tx, old, new, ents>>
PSync == pc = "psync" /\ (IF SyncDb THEN Sync(DB) ELSE Skip) /\ pc' = "jtrunc" /\ UNCHANGED <<tx, old, new, todo, ents>>
JTrunc == pc = "jtrunc" /\ Do(J, [k |-> "trunc"]) /\ pc' = "csync" /\ UNCHANGED <<tx, old, new, todo, ents>>
CSync == /\ pc = "csync" /\ (IF SyncCommit THEN Sync(J) ELSE Skip) /\ pc' = "idle"
         /\ old' = new /\ UNCHANGED <<tx, new, todo, ents>>

Next == Begin \/ JHead \/ JPages \/ JSync \/ DSync \/ JMark \/ HSync \/ WPages \/ PSync \/ JTrunc \/ CSync
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------ recovery  *)
(* the operations of inode f present in an image                          *)
Kept(f, c) == {i \in 1 .. Len(hist[f]) : (\A j \in 1 .. Len(pend[f]) : pend[f][j] # i)
                                         \/ \E j \in c.keep : pend[f][j] = i}
Torn(f, c) == IF c.torn = 0 THEN 0 ELSE pend[f][c.torn]

RECURSIVE DbAfter(_, _, _)
DbAfter(i, c, s) ==
  IF i > Len(hist[DB]) THEN s
  ELSE LET op == hist[DB][i] IN
       DbAfter(i + 1, c, IF i \notin Kept(DB, c) THEN s
                         ELSE IF i = Torn(DB, c) THEN [s EXCEPT ![op.p] = "torn"]
                         ELSE [s EXCEPT ![op.p] = op.v])

(* The journal as found: header and records by position.  A torn header   *)
(* is no header, a torn or missing record fails its checksum.             *)
RECURSIVE JAfter(_, _, _)
JAfter(i, c, s) ==
  IF i > Len(hist[J]) THEN s
  ELSE LET op == hist[J][i]
           w == [s EXCEPT !.pos = IF op.k = "rec" THEN @ + 1 ELSE IF op.k = "trunc" \/ op.n = 0 THEN 0 ELSE @]
           kept == i \in Kept(J, c)
           t == i = Torn(J, c)
           bad == [p |-> CHOOSE p \in Pages : TRUE, v |-> "torn"]
           put(r) == [j \in 1 .. (IF Len(w.rec) > w.pos THEN Len(w.rec) ELSE w.pos) |->
                        IF j = w.pos THEN r ELSE IF j <= Len(w.rec) THEN w.rec[j] ELSE bad]
       IN JAfter(i + 1, c,
            IF ~kept THEN w
            ELSE CASE op.k = "head" -> [w EXCEPT !.n = IF t THEN 0 ELSE op.n]
                   [] op.k = "rec" -> [w EXCEPT !.rec = put(IF t THEN bad ELSE [p |-> op.p, v |-> op.v])]
                   [] OTHER -> IF t THEN w ELSE [w EXCEPT !.n = 0, !.rec = <<>>])

Recover(img) ==
  LET d == DbAfter(1, img.file[DB], [p \in Pages |-> CHOOSEV])
      j == JAfter(1, img.file[J], [n |-> 0, rec |-> <<>>, pos |-> 0])
      hot == img.ent["j"] = J /\ j.n > 0
      good == {k \in 1 .. j.n : k <= Len(j.rec) /\ \A m \in 1 .. k : m <= Len(j.rec) /\ j.rec[m].v # "torn"}
  IN IF ~hot THEN d
     ELSE [p \in Pages |-> IF \E k \in good : j.rec[k].p = p
                           THEN j.rec[CHOOSE k \in good : j.rec[k].p = p].v ELSE d[p]]

CrashSafe ==
  LET rs == {Recover(i) : i \in Images(pend, ents)} IN
  IF pc = "idle" THEN rs = {old} ELSE rs \subseteq {old, new}
=============================================================================
