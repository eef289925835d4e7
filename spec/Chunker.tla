------------------------------ MODULE Chunker ------------------------------
(* Storing a file's bytes: what a source delivers is gathered into blocks,  *)
(* cut into chunks at places the content decides (or by force), and the     *)
(* chunks are arranged under five levels of lists.                          *)
(*                                                                          *)
(* Data is a sequence of units.  A unit's mark is how deep a boundary the   *)
(* bytes at its end make: 0 none, 1 ends a chunk, 2 also ends the list of   *)
(* chunks, ... 5 also ends the lists above.  The last unit may be short.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Block,      \* units in a block
          Force,      \* a block longer than this is cut without a match
          MinChunk,        \* a chunk shorter than this is not ended by a match
          MaxCount,   \* children a list may have
          MaxUnits, Family, MaxPieces, Emit

Levels == 0 .. 4
None == 9

VARIABLES data, short,        \* the marks, and whether the last unit is short
          pos, filled,        \* what the source has delivered; the block being filled
          eof, buf,           \* units of the current block still to be cut
          seen, cur, bufs,    \* mark last passed by the hash; units of the open chunk; open lists
          phase, tree, pieces
vars == <<data, short, pos, filled, eof, buf, seen, cur, bufs, phase, tree, pieces>>

Leaf(u) == [k |-> "leaf", u |-> u, c |-> <<>>]
Node(c) == [k |-> "node", u |-> <<>>, c |-> c]
RECURSIVE Flat(_)
Flat(t) == IF t.k = "leaf" THEN t.u ELSE FlattenSeq([i \in DOMAIN t.c |-> Flat(t.c[i])])
RECURSIVE Shape(_)
Shape(t) == IF t.k = "leaf" THEN <<>> ELSE [i \in DOMAIN t.c |-> Shape(t.c[i])]
RECURSIVE Height(_)
Height(t) == IF t.k = "leaf" THEN 0
             ELSE 1 + FoldLeft(LAMBDA a, b : IF a > b THEN a ELSE b, 0, [i \in DOMAIN t.c |-> Height(t.c[i])])

\* lengths in half units
Len2(u, n, s) == 2 * Len(u) - (IF s /\ Len(u) > 0 /\ u[Len(u)] = n THEN 1 ELSE 0)

FirstMatch(d, b) == IF \E i \in DOMAIN b : d[b[i]] > 0
                    THEN CHOOSE i \in DOMAIN b : d[b[i]] > 0 /\ \A j \in 1 .. i - 1 : d[b[j]] = 0 ELSE 0

\* a finished chunk joins level 0; lists that are ended (or full) move up
RECURSIVE Up(_, _, _)
Up(bs, l, m) ==
  IF l = 4 \/ ~(m > l + 1 \/ Len(bs[l]) >= MaxCount) THEN bs
  ELSE Up([bs EXCEPT ![l] = <<>>, ![l + 1] = Append(@, Node(bs[l]))], l + 1, m)
AddChunk(bs, u, m) == Up([bs EXCEPT ![0] = Append(@, Leaf(u))], 0, m)

\* the end: what is left of every level is wrapped, lowest first
RECURSIVE Wrap(_, _)
Wrap(bs, l) ==
  IF l = 4 THEN Node(bs[4])
  ELSE IF Len(bs[l]) = 1 /\ \A x \in l + 1 .. 4 : bs[x] = <<>> THEN bs[l][1]
  ELSE Wrap([bs EXCEPT ![l + 1] = Append(@, Node(bs[l]))], l + 1)
Close(bs, u) ==
  IF \A l \in Levels : bs[l] = <<>> THEN Leaf(u)
  ELSE Wrap(IF u = <<>> THEN bs ELSE [bs EXCEPT ![0] = Append(@, Leaf(u))], 0)

NoBufs == [l \in Levels |-> <<>>]

\* the same as one pass over whole blocks
RECURSIVE Cut(_, _, _, _, _)
Cut(d, s, b, sn, st) ==       \* st: open chunk and lists
  LET m == FirstMatch(d, b)
      sn2 == IF m > 0 THEN d[b[m]] ELSE IF b # <<>> THEN 0 ELSE sn
      at == IF Len2(b, Len(d), s) > 2 * Force THEN Force ELSE m
  IN IF at = 0 THEN [cur |-> st.cur \o b, bufs |-> st.bufs, seen |-> sn2]
     ELSE LET c == st.cur \o SubSeq(b, 1, at)
              r == SubSeq(b, at + 1, Len(b))
          IN IF Len2(c, Len(d), s) >= 2 * MinChunk
             THEN Cut(d, s, r, sn2, [cur |-> <<>>, bufs |-> AddChunk(st.bufs, c, sn2)])
             ELSE Cut(d, s, r, sn2, [cur |-> c, bufs |-> st.bufs])
RECURSIVE Blocks(_, _, _, _)
Blocks(d, s, p, st) ==
  IF p = Len(d) THEN Close(st.bufs, st.cur)
  ELSE LET q == IF p + Block < Len(d) THEN p + Block ELSE Len(d)
       IN Blocks(d, s, q, Cut(d, s, [i \in 1 .. q - p |-> p + i], st.seen, st))
Stored(d, s) == Blocks(d, s, 0, [cur |-> <<>>, bufs |-> NoBufs, seen |-> 0])

----------------------------------------------------------------------------
Seqs(S, n) == UNION {[1 .. k -> S] : k \in 0 .. n}
\* one unit of mark m and the rest of its block without one; or a mark at the end of the block
AtStart(m) == [i \in 1 .. Block |-> IF i = 1 THEN m ELSE 0]
AtEnd(m) == [i \in 1 .. Block |-> IF i = Block THEN m ELSE 0]
Many(f, n) == FlattenSeq([i \in 1 .. n |-> f])
Datas ==
  CASE Family = "all" -> Seqs(0 .. 5, MaxUnits)
    [] Family = "levels" ->       \* every sequence of levels, with each way of ending
         {FlattenSeq([i \in DOMAIN q |-> AtStart(q[i])]) \o e :
            q \in Seqs(1 .. 5, MaxUnits), e \in {<<>>, <<0>>} \cup {AtEnd(m) : m \in 1 .. 5}}
    [] Family = "counts" ->       \* lists that fill up, at every level
         {Many(AtEnd(m), (MaxCount \div 2) + a) \o e :
            m \in 1 .. MaxUnits, a \in {0, 1}, e \in {<<>>, <<0>>}}
    [] Family = "file" -> LET f == JsonDeserialize("datas.json") IN {f[i] : i \in DOMAIN f}
Init == /\ data \in Datas /\ short \in (IF data = <<>> THEN {FALSE} ELSE IF data[Len(data)] = 0 THEN BOOLEAN ELSE {FALSE})
        /\ pos = 0 /\ filled = <<>> /\ eof = FALSE /\ buf = <<>> /\ seen = 0 /\ cur = <<>>
        /\ bufs = NoBufs /\ phase = "read" /\ tree = None /\ pieces = <<>>

\* the source hands over some units, is interrupted, or says there is no more
Deliver(k) == /\ phase = "read" /\ k > 0 /\ pos + k <= Len(data) /\ Len(filled) + k <= Block
              /\ Len(pieces) < MaxPieces \/ k = Block - Len(filled) \/ k = Len(data) - pos
              /\ filled' = filled \o [i \in 1 .. k |-> pos + i] /\ pos' = pos + k
              /\ pieces' = IF Len(pieces) < MaxPieces THEN Append(pieces, k) ELSE pieces
              /\ UNCHANGED <<data, short, eof, buf, seen, cur, bufs, phase, tree>>
Interrupted == /\ phase = "read" /\ Len(pieces) < MaxPieces /\ (IF pieces = <<>> THEN TRUE ELSE pieces[Len(pieces)] # 0)
               /\ pieces' = Append(pieces, 0)
               /\ UNCHANGED <<data, short, pos, filled, eof, buf, seen, cur, bufs, phase, tree>>
Full == /\ phase = "read" /\ (Len(filled) = Block \/ pos = Len(data))
        /\ buf' = filled /\ filled' = <<>>
        /\ IF filled = <<>> THEN eof' = TRUE /\ phase' = "close" ELSE eof' = eof /\ phase' = "cut"
        /\ UNCHANGED <<data, short, pos, seen, cur, bufs, tree, pieces>>
CutStep ==
  /\ phase = "cut"
  /\ LET m == FirstMatch(data, buf)
         at == IF Len2(buf, Len(data), short) > 2 * Force THEN Force ELSE m
     IN /\ seen' = IF m > 0 THEN data[buf[m]] ELSE IF buf # <<>> THEN 0 ELSE seen
        /\ IF at = 0
           THEN cur' = cur \o buf /\ buf' = <<>> /\ phase' = "read" /\ bufs' = bufs
           ELSE /\ buf' = SubSeq(buf, at + 1, Len(buf)) /\ phase' = phase
                /\ LET c == cur \o SubSeq(buf, 1, at)
                   IN IF Len2(c, Len(data), short) >= 2 * MinChunk
                      THEN cur' = <<>> /\ bufs' = AddChunk(bufs, c, seen')
                      ELSE cur' = c /\ bufs' = bufs
  /\ UNCHANGED <<data, short, pos, filled, eof, tree, pieces>>
Finish == /\ phase = "close" /\ phase' = "done" /\ tree' = Close(bufs, cur)
          /\ UNCHANGED <<data, short, pos, filled, eof, buf, seen, cur, bufs, pieces>>
Next == (\E k \in 1 .. Block : Deliver(k)) \/ Interrupted \/ Full \/ CutStep \/ Finish
Spec == Init /\ [][Next]_vars

\* reading back is the concatenation of the leaves
Complete == phase = "done" => Flat(tree) = [i \in 1 .. Len(data) |-> i]
\* nothing is lost or out of order on the way
Progress == phase \in {"read", "cut"} =>
  FlattenSeq([i \in 1 .. 5 |-> Flat(Node(bufs[5 - i]))]) \o cur \o buf \o filled = [i \in 1 .. pos |-> i]
\* what is stored depends on the data alone
SameKey == phase = "done" => tree = Stored(data, short)
\* no node without children is ever part of the result
Sizes == \A l \in 0 .. 3 : Len(bufs[l]) < MaxCount

Done == (Emit /\ phase = "done") =>
  PrintT("@@" \o ToJson([d |-> data, s |-> short, p |-> pieces, h |-> Height(tree), t |-> Shape(tree)]))
=============================================================================
