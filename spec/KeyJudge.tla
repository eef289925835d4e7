------------------------------ MODULE KeyJudge ------------------------------
(* Lookups done by the real program, judged by KeyText: texts and keys are   *)
(* given as digits 0..31 (a letter that is no digit is 99), the rest of the  *)
(* text is after the type letter.                                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
KT == INSTANCE KeyText WITH KeyBits <- 256, CharBits <- 5, ByteBits <- 8, key <- <<>>, txt <- <<>>
L == JsonDeserialize("lookups.json")
VARIABLE i
SeqToSet(s) == {s[k] : k \in DOMAIN s}
(* x.store: texts (digit sequences) of the stored keys; x.q: what was asked  *)
Want(x) ==
  IF ~x.typed \/ \E k \in DOMAIN x.q : x.q[k] > 31 THEN [r |-> {"invalid"}, k |-> <<>>]
  ELSE LET f == {t \in SeqToSet(x.store) : KT!Prefix(x.q, t)} IN
       IF Len(x.q) > KT!Chars \/ (Len(x.q) = KT!Chars /\ x.q[KT!Chars] % 16 # 0) THEN [r |-> {"invalid", "none"}, k |-> <<>>]
       ELSE IF f = {} THEN [r |-> {"none"}, k |-> <<>>]
       ELSE IF Cardinality(f) = 1 THEN [r |-> {"one"}, k |-> CHOOSE t \in f : TRUE]
       ELSE [r |-> {"many"}, k |-> <<>>]
Right(x) == LET w == Want(x) IN x.out \in w.r /\ (x.out = "one" => x.got = w.k)
Init == i = 0
Next == i < Len(L) /\ i' = i + 1 /\ (~Right(L[i']) => PrintT("@@" \o ToJson([i |-> i', want |-> Want(L[i'])])))
Spec == Init /\ [][Next]_i
Finished == (i = Len(L)) => PrintT("@@" \o ToJson([i |-> 0]))
=============================================================================
