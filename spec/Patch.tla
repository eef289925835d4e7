------------------------------- MODULE Patch -------------------------------
(* A patch between two texts: an edit script cut into hunks with context,   *)
(* and what applying a patch means.  Every script of keeps, removals and    *)
(* additions is a way of comparing two texts; whichever one is found, the   *)
(* hunks made of it must lead from the old text to the new.                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Lines, MaxLen,
          Before, After,     \* a line is shown when a change lies at most Before lines above or After lines below it
          OwnCounts,         \* a header counts the lines of its own side (otherwise all lines shown)
          Emit
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Elems(s) == {s[i] : i \in DOMAIN s}

(* ---------------- applying ---------------- *)
\* a hunk: first line and number of lines on either side, lines [m: " ", "-" or "+", t: text]
Side(h, ms) == SelectSeq(h.lines, LAMBDA l : l.m \in ms)
Text(ls) == [i \in DOMAIN ls |-> ls[i].t]
OldSide(h) == Text(Side(h, {" ", "-"}))
NewSide(h) == Text(Side(h, {" ", "+"}))
\* where a hunk starts on a side; by convention an empty side may also be given as line 0
At(start, count) == IF start = 0 /\ count = 0 THEN 1 ELSE start
\* res: new text so far, pos: next line of old not yet dealt with
RECURSIVE ApplyFrom(_, _, _, _)
ApplyFrom(old, hs, pos, res) ==
  IF hs = <<>> THEN [ok |-> TRUE, new |-> res \o SubSeq(old, pos, Len(old))]
  ELSE LET h == Head(hs)
           at == At(h.os, h.oc)
       IN IF /\ at >= pos /\ at + h.oc - 1 <= Len(old)
             /\ Len(OldSide(h)) = h.oc /\ Len(NewSide(h)) = h.nc
             /\ SubSeq(old, at, at + h.oc - 1) = OldSide(h)
             /\ At(h.ns, h.nc) = Len(res) + (at - pos) + 1
          THEN ApplyFrom(old, Tail(hs), at + h.oc, res \o SubSeq(old, pos, at - 1) \o NewSide(h))
          ELSE [ok |-> FALSE, new |-> <<>>]
Apply(old, hs) == ApplyFrom(old, hs, 1, <<>>)
Correct(old, new, hs) == LET r == Apply(old, hs) IN r.ok /\ r.new = new
\* statistics: what was kept of the old text is what was kept in the new one
StatOk(old, new, added, removed) == added <= Len(new) /\ removed <= Len(old) /\ Len(old) - removed = Len(new) - added

(* ---------------- making ---------------- *)
OldOf(s) == Text(SelectSeq(s, LAMBDA l : l.m \in {" ", "-"}))
NewOf(s) == Text(SelectSeq(s, LAMBDA l : l.m \in {" ", "+"}))
Shown(s, i) == \E j \in Max(1, i - Before) .. Min(Len(s), i + After) : s[j].m # " "
Starts(s) == {i \in DOMAIN s : Shown(s, i) /\ (i = 1 \/ ~Shown(s, i - 1))}
EndOf(s, i) == CHOOSE j \in i .. Len(s) : (\A k \in i .. j : Shown(s, k)) /\ (j = Len(s) \/ ~Shown(s, j + 1))
HunkAt(s, i) == LET p == SubSeq(s, 1, i - 1)
                    ls == SubSeq(s, i, EndOf(s, i))
                IN [os |-> Len(OldOf(p)) + 1, ns |-> Len(NewOf(p)) + 1, lines |-> ls,
                    oc |-> IF OwnCounts THEN Len(OldOf(ls)) ELSE Len(ls), nc |-> IF OwnCounts THEN Len(NewOf(ls)) ELSE Len(ls)]
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
Hunks(s) == LET st == Sorted(Starts(s)) IN [k \in DOMAIN st |-> HunkAt(s, st[k])]

(* ---------------- every script; random long ones ---------------- *)
VARIABLES script
Init == script = <<>>
Ops == [m : {" ", "-", "+"}, t : Lines]
Next == Len(script) < MaxLen /\ \E o \in Ops : script' = Append(script, o)
Spec == Init /\ [][Next]_script
R(S) == RandomElement(S)
Run(m, n, z) == [i \in 1 .. n |-> [m |-> m, t |-> z[i]]]
GNext == /\ Len(script) < MaxLen
         /\ \E m \in {" ", "-", "+"} : \E n \in {R(IF m = " " THEN {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 25} ELSE {1, 2, 3, 1, 6})} :
              \E z \in {[i \in 1 .. n |-> R(Lines)]} : script' = script \o Run(m, n, z)
GSpec == Init /\ [][GNext]_script
Leads == Correct(OldOf(script), NewOf(script), Hunks(script))
Counts == StatOk(OldOf(script), NewOf(script), Cardinality({i \in DOMAIN script : script[i].m = "+"}), Cardinality({i \in DOMAIN script : script[i].m = "-"}))
\* every changed line is in a hunk
AllShown == \A i \in DOMAIN script : script[i].m # " " => \E k \in DOMAIN Hunks(script) : LET h == Hunks(script)[k] IN script[i] \in Elems(h.lines)
EmitPair == (Emit /\ Len(script') >= MaxLen) => PrintT("@@" \o ToJson([o |-> OldOf(script'), n |-> NewOf(script')]))
=============================================================================
