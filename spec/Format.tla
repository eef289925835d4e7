------------------------------- MODULE Format -------------------------------
(* The form in which a repository is kept: every object is a CBOR map of     *)
(* data, keys and objtype (in this order); directories, files and commits    *)
(* have CBOR data; an object is found under the byte 1 and its hash; refs    *)
(* are rows of text, text or nothing, and a key; HEAD is a state entry.      *)
(* Texts and byte strings are sequences of bytes here.                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

Pow256(k) == 256 ^ k
BE(n, k) == [i \in 1 .. k |-> (n \div Pow256(k - i)) % 256]
Hd(m, n) == IF n < 24 THEN <<32 * m + n>>
              ELSE IF n < 256 THEN <<32 * m + 24>> \o BE(n, 1)
              ELSE IF n < 65536 THEN <<32 * m + 25>> \o BE(n, 2)
              ELSE <<32 * m + 26>> \o BE(n, 4)
Text(s) == Hd(3, Len(s)) \o s
Num(n) == Hd(0, n)
All(q) == FlattenSeq(q)

data_ == <<100, 97, 116, 97>>
keys_ == <<107, 101, 121, 115>>
objtype_ == <<111, 98, 106, 116, 121, 112, 101>>
blake_ == <<66, 108, 97, 107, 101, 51, 66>>
size_ == <<115, 105, 122, 101>>
itemtype_ == <<105, 116, 101, 109, 116, 121, 112, 101>>
names_ == <<99, 104, 105, 108, 100, 114, 101, 110, 95, 110, 97, 109, 101, 115>>
Dir_ == <<68, 105, 114>>
File_ == <<70, 105, 108, 101>>
message_ == <<109, 101, 115, 115, 97, 103, 101>>
extra_ == <<101, 120, 116, 114, 97>>

Key(k) == Hd(5, 1) \o Text(blake_) \o Hd(4, 32) \o All([i \in 1 .. 32 |-> Num(k[i])])
\* everything before the data, and everything after it
Before(n) == Hd(5, 3) \o Text(data_) \o Hd(2, n)
After(ks, t) == Text(keys_) \o Hd(4, Len(ks)) \o All([i \in DOMAIN ks |-> Key(ks[i])]) \o Text(objtype_) \o Text(t)

DirData(ns) == Hd(5, 3) \o Text(size_) \o Num(Len(ns)) \o Text(itemtype_) \o Text(Dir_)
               \o Text(names_) \o Hd(4, Len(ns)) \o All([i \in DOMAIN ns |-> Text(ns[i])])
FileData(n) == Hd(5, 3) \o Text(size_) \o Num(n) \o Text(itemtype_) \o Text(File_) \o Text(names_) \o Hd(4, 0)
CommitData(m) == Hd(5, 2) \o Text(message_) \o Text(m) \o Text(extra_) \o Hd(5, 0)

LessEq(a, b) == \/ \E i \in DOMAIN a : i \in DOMAIN b /\ a[i] < b[i] /\ \A j \in 1 .. i - 1 : a[j] = b[j]
                \/ Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Sorted(ns) == \A i \in 1 .. Len(ns) - 1 : LessEq(ns[i], ns[i + 1])

(* records: kind (what is described), type (text), n (bytes of data), data, keys, key (as stored), hash (BLAKE3 of the whole), *)
(* before / after (the bytes around the data); for refs the types and values of the columns                                    *)
Type(k) == CASE k = "dir" -> <<70, 83, 73, 116, 101, 109, 68, 105, 114>>
             [] k = "file" -> <<70, 83, 73, 116, 101, 109, 70, 105, 108, 101>>
             [] k = "commit" -> <<67, 111, 109, 109, 105, 116>>
             [] k = "blob" -> <<70, 105, 108, 101, 66, 108, 111, 98>>
             [] k = "list" -> <<70, 105, 108, 101, 66, 108, 111, 98, 84, 114, 101, 101>>
Good(r) ==
  IF r.kind = "ref" THEN r.cols[1] = "text" /\ r.cols[2] \in {"text", "null"} /\ r.cols[3] = "blob" /\ Len(r.key) = 33 /\ r.key[1] = 1
  ELSE IF r.kind = "head" THEN r.cols[1] = "blob" /\ r.cols[2] = "blob" /\ r.name = <<72, 69, 65, 68>> /\ r.value = r.want
  ELSE
  /\ r.key = <<1>> \o r.hash
  /\ r.before = Before(r.n) /\ r.after = After(r.keys, Type(r.kind))
  /\ CASE r.kind = "dir" -> Sorted(r.names) /\ Len(r.keys) = Len(r.names) /\ r.data = DirData(r.names)
       [] r.kind = "file" -> Len(r.keys) = 1 /\ r.data = FileData(r.size)
       [] r.kind = "commit" -> Len(r.keys) >= 1 /\ Sorted(Tail(r.keys)) /\ r.data = CommitData(r.msg)
       [] r.kind = "blob" -> r.keys = <<>>
       [] r.kind = "list" -> r.n = 0

T == JsonDeserialize("records.json")
VARIABLE n
Init == n = 0
Next == /\ n < Len(T) /\ n' = n + 1
        /\ IF Good(T[n + 1]) THEN TRUE ELSE PrintT("@@" \o ToJson([n |-> n + 1]))
=============================================================================
