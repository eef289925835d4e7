------------------------------- MODULE Disk -------------------------------
(* What a file system may show after a power loss, given the operations   *)
(* performed before it.                                                   *)
(*                                                                        *)
(* A file (inode) receives writes and truncations; they are pending until *)
(* the file is synced.  After a crash any subset of the pending ones is   *)
(* there, and one of the kept writes may be there only in part.  A        *)
(* directory entry changes when a file is created or unlinked; until the  *)
(* directory is synced, any of the values it had since the last sync may  *)
(* be found.  A killed process is the special case in which everything    *)
(* written so far is there.                                               *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANT AllUpTo        \* keep-sets are enumerated completely up to this many pending operations

(* The keep-sets considered for n pending operations (indices 1..n); for   *)
(* long sequences only some positions are singled out.                    *)
Marks(n) == IF n <= 10 THEN 1 .. n ELSE {1, 2, 3, n \div 4, n \div 2, (3 * n) \div 4, n - 1, n}
Keeps(n) ==
  IF n <= AllUpTo THEN SUBSET (1 .. n)
  ELSE {{}, 1 .. n}
       \cup {1 .. k : k \in Marks(n)}
       \cup {k .. n : k \in Marks(n)}
       \cup {(1 .. n) \ {k} : k \in Marks(n)}
       \cup {{k} : k \in Marks(n)}

(* Per inode: the indices kept, and which of them (0: none) is torn.      *)
(* Tearing is combined with keeping everything up to the torn operation,  *)
(* and with keeping everything.                                           *)
FileChoices(n) ==
  {[keep |-> s, torn |-> 0] : s \in Keeps(n)}
  \cup {[keep |-> 1 .. n, torn |-> k] : k \in Marks(n)}
  \cup {[keep |-> 1 .. k, torn |-> k] : k \in Marks(n)}

(* One directory entry: the sequence of values since its last sync (of a   *)
(* long one, the ends).                                                   *)
EntryChoices(seq) == {seq[j] : j \in {k \in 1 .. Len(seq) : k <= 2 \/ k > Len(seq) - 3}}
EntryMaps(ents) ==
  LET P == DOMAIN ents
      last == [p \in P |-> ents[p][Len(ents[p])]]
      first == [p \in P |-> ents[p][1]]
      open == {p \in P : Len(ents[p]) > 1}
      Each(base) == {[base EXCEPT ![p] = v] : p \in open, v \in UNION {EntryChoices(ents[q]) : q \in open}}
  IN IF \A p \in P : Len(ents[p]) <= 3
     THEN {e \in [P -> UNION {EntryChoices(ents[p]) : p \in P}] : \A p \in P : e[p] \in EntryChoices(ents[p])}
     ELSE {last, first} \cup {e \in Each(last) \cup Each(first) : \A p \in P : e[p] \in EntryChoices(ents[p])}

(* All crash images.  pend: inode -> sequence of pending operation ids;   *)
(* ents: path -> sequence of inodes (0: absent).  If several inodes have  *)
(* pending operations the choices multiply, but only one at a time        *)
(* deviates from the extremes (nothing / everything kept).                *)
Nothing == [keep |-> {}, torn |-> 0]
All(n) == [keep |-> 1 .. n, torn |-> 0]

Images(pend, ents) ==
  LET ino == DOMAIN pend
      \* what no name may lead to any more does not matter
      named == UNION {EntryChoices(ents[p]) : p \in DOMAIN ents}
      busy == {f \in ino \cap named : Len(pend[f]) > 0}
      small == Cardinality(busy) <= 2 /\ \A f \in busy : Len(pend[f]) <= 3
      content ==
        IF busy = {} THEN {[x \in ino |-> Nothing]}
        ELSE IF small
        THEN LET f == CHOOSE x \in busy : TRUE
                 g == IF busy = {f} THEN f ELSE CHOOSE x \in busy \ {f} : TRUE
             IN {[x \in ino |-> IF x = f THEN c ELSE IF x = g THEN e ELSE Nothing] :
                    c \in FileChoices(Len(pend[f])), e \in FileChoices(Len(pend[g]))}
        ELSE UNION {{[x \in ino |-> IF x = f THEN c ELSE IF all THEN All(Len(pend[x])) ELSE Nothing] :
                       c \in FileChoices(Len(pend[f])), all \in BOOLEAN} : f \in busy}
      entry == EntryMaps(ents)
  IN {[ent |-> e, file |-> c] : e \in entry, c \in content}
=============================================================================
