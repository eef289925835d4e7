------------------------------ MODULE KeyText ------------------------------
(* What a key's text form means.  A key is a string of KeyBits bits; its    *)
(* text is the type letter followed by its bits in groups of CharBits, the   *)
(* last group filled up with zero bits.  Looking a text up means finding the *)
(* stored keys whose text begins with it.                                    *)
(* The second half is how the program does it - a half-open interval of byte *)
(* strings - and the theorem, checked exhaustively for small widths, that    *)
(* this finds exactly the same keys.                                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS KeyBits, CharBits, ByteBits

Chars == (KeyBits + CharBits - 1) \div CharBits          \* letters of a full key
Bit == {0, 1}
Pad(s, n) == s \o [i \in 1 .. n |-> 0]
RECURSIVE Val(_)
Val(s) == IF s = <<>> THEN 0 ELSE 2 * Val(SubSeq(s, 1, Len(s) - 1)) + s[Len(s)]
RECURSIVE ToBits(_, _)
ToBits(v, n) == IF n = 0 THEN <<>> ELSE Append(ToBits(v \div 2, n - 1), v % 2)
RECURSIVE Groups(_, _)
Groups(bits, w) == IF bits = <<>> THEN <<>>
                   ELSE LET h == SubSeq(bits, 1, IF Len(bits) < w THEN Len(bits) ELSE w)
                        IN <<Val(Pad(h, w - Len(h)))>> \o Groups(SubSeq(bits, Len(h) + 1, Len(bits)), w)
(* key -> digits of its text                                                *)
Text(key) == Groups(key, CharBits)
RECURSIVE Flatten(_, _)
Flatten(t, w) == IF t = <<>> THEN <<>> ELSE ToBits(t[1], w) \o Flatten(Tail(t), w)

(* -------------------------------------------------------------- meaning   *)
Prefix(t, u) == Len(t) <= Len(u) /\ SubSeq(u, 1, Len(t)) = t
Found(store, t) == {k \in store : Prefix(t, Text(k))}
Resolve(store, t) == LET f == Found(store, t) IN
  IF Len(t) > Chars THEN [r |-> "none", k |-> <<>>]
  ELSE IF f = {} THEN [r |-> "none", k |-> <<>>]
  ELSE IF Cardinality(f) = 1 THEN [r |-> "one", k |-> CHOOSE k \in f : TRUE]
  ELSE [r |-> "many", k |-> <<>>]

(* --------------------------------------------------------- the mechanism  *)
Bytes(bits) == Groups(bits, ByteBits)
RECURSIVE Lt(_, _)
Lt(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
            ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Lt(Tail(a), Tail(b))
RangeFound(store, t) ==
  LET bits == Flatten(t, CharBits) IN
  IF Len(bits) >= KeyBits
  THEN {k \in store : k = SubSeq(bits, 1, KeyBits) /\ Text(k) = t}
  ELSE LET all1 == \A i \in DOMAIN bits : bits[i] = 1
           lo == Bytes(bits)
           hi == Bytes(ToBits(Val(bits) + 1, Len(bits)))
       IN {k \in store : ~Lt(Bytes(k), lo) /\ (all1 \/ Lt(Bytes(k), hi))}

VARIABLES key, txt
Init == /\ key \in [1 .. KeyBits -> Bit]
        /\ txt = <<>>
Next == /\ Len(txt) <= Chars
        /\ \E d \in 0 .. 2 ^ CharBits - 1 : txt' = Append(txt, d)
        /\ key' = key
Spec == Init /\ [][Next]_<<key, txt>>
(* for every key and every text up to one letter too long                  *)
Mechanism == RangeFound({key}, txt) = (IF Len(txt) > Chars THEN {} ELSE Found({key}, txt))
(* printing and reading again                                              *)
RoundTrip == Found({key}, Text(key)) = {key} /\ Len(Text(key)) = Chars
=============================================================================
