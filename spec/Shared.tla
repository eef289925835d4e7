------------------------------- MODULE Shared -------------------------------
(* Two versions of a file stored one after the other.  What they have in    *)
(* common at the same place, block for block, is stored once: content added *)
(* by the second is at most two blocks for each block it changed (or that   *)
(* only one of them has).                                                   *)
(*                                                                          *)
(* Versions are sequences of units as in Chunker; `diff` are the positions  *)
(* at which the second has other content (its mark there may be the same).  *)
EXTENDS Chunker

CONSTANT Marks
VARIABLES other, oshort, diff
svars == <<vars, other, oshort, diff>>
vars2 == <<data, short, pos, filled, eof, buf, seen, cur, bufs, tree, pieces>>

MSeqs(n) == UNION {[1 .. k -> Marks] : k \in 0 .. n}
Pos(d) == 1 .. Len(d)
\* positions at which they cannot be the same
Must(d, s, e, u) == {i \in Pos(d) \cap Pos(e) : d[i] # e[i]}
                    \cup (IF d # <<>> /\ s /\ ~(Len(e) = Len(d) /\ u) THEN {Len(d)} ELSE {})
                    \cup (IF e # <<>> /\ u /\ ~(Len(e) = Len(d) /\ s) THEN {Len(e)} ELSE {})

RECURSIVE AllLeaves(_)
AllLeaves(t) == IF t.k = "leaf" THEN {t.u} ELSE UNION {AllLeaves(t.c[i]) : i \in DOMAIN t.c}
\* a leaf of the second version that the first does not have: one with a unit that differs, or cut elsewhere
NewLeaves(d, s, e, u, df) ==
  LET old == AllLeaves(Stored(d, s))
  IN {l \in AllLeaves(Stored(e, u)) : l \notin old \/ \E i \in DOMAIN l : l[i] \in df}
RECURSIVE SumLen(_, _, _)
SumLen(S, n, s) == IF S = {} THEN 0 ELSE LET l == CHOOSE x \in S : TRUE IN Len2(l, n, s) + SumLen(S \ {l}, n, s)
Added2(d, s, e, u, df) == SumLen(NewLeaves(d, s, e, u, df), Len(e), u)
BlockOf(i) == (i - 1) \div Block
Max2(a, b) == IF a > b THEN a ELSE b
\* blocks in which they differ, or of which one has more
Changed(d, e, df) ==
  {BlockOf(i) : i \in df} \cup {BlockOf(i) : i \in {x \in 1 .. Max2(Len(d), Len(e)) : x \notin Pos(d) \cap Pos(e)}}
Bound2(d, e, df) == 2 * 2 * Block * Cardinality(Changed(d, e, df))

SInit == /\ data \in MSeqs(MaxUnits) /\ short \in (IF data = <<>> THEN {FALSE} ELSE IF data[Len(data)] = 0 THEN BOOLEAN ELSE {FALSE})
         /\ other = <<>> /\ oshort = FALSE /\ diff = {}
         /\ pos = 0 /\ filled = <<>> /\ eof = FALSE /\ buf = <<>> /\ seen = 0 /\ cur = <<>>
         /\ bufs = NoBufs /\ phase = "one" /\ tree = None /\ pieces = <<>>
\* edits: replace the content of a run of units, truncate, append, or any combination
Second == /\ phase = "one" /\ phase' = "two"
          /\ \E keep \in 0 .. Len(data), more \in MSeqs(IF Len(data) > 3 THEN 2 ELSE 3), at \in 0 .. Len(data), run \in 0 .. 2, m \in Marks :
               LET base == SubSeq(data, 1, keep) \o more
                   hit == {i \in at .. at + run - 1 : i >= 1 /\ i <= keep}
                   e == [i \in DOMAIN base |-> IF i \in hit THEN m ELSE base[i]]
               IN /\ other' = e
                  /\ oshort' \in (IF e = <<>> THEN {FALSE} ELSE IF e[Len(e)] = 0 THEN BOOLEAN ELSE {FALSE})
                  /\ diff' = Must(data, short, e, oshort') \cup hit \cup {i \in Pos(e) \cap Pos(data) : i > keep}
          /\ UNCHANGED vars2

SNext == Second

\* versions given: judged by the same rule
Given == JsonDeserialize("versions.json")
GInit == /\ \E i \in DOMAIN Given : LET g == Given[i] IN
              /\ data = g.d /\ short = g.s /\ other = g.e /\ oshort = g.u /\ diff = {g.x[j] : j \in DOMAIN g.x} \cup Must(g.d, g.s, g.e, g.u)
              /\ pieces = <<i>>
         /\ pos = 0 /\ filled = <<>> /\ eof = FALSE /\ buf = <<>> /\ seen = 0 /\ cur = <<>>
         /\ bufs = NoBufs /\ phase = "two" /\ tree = None
GNext == FALSE /\ UNCHANGED svars
StoredOnce == phase = "two" => Added2(data, short, other, oshort, diff) <= Bound2(data, other, diff)
SEmit == (Emit /\ phase = "two") =>
  PrintT("@@" \o ToJson([i |-> pieces, d |-> data, s |-> short, e |-> other, u |-> oshort, x |-> diff, n |-> Added2(data, short, other, oshort, diff),
                          ch |-> Cardinality(Changed(data, other, diff))]))
=============================================================================
