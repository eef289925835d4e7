----------------------------- MODULE GraphTrace -----------------------------
(* Judges the sequences of repository states that other processes observed: *)
(* each observation says which objects appeared (with their type and what   *)
(* they name), which disappeared or do not decode, and which new entries    *)
(* ref histories have.                                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
T == JsonDeserialize("graphs.json")
VARIABLES t, k, obj, ents
vars == <<t, k, obj, ents>>
Trees == {"FSItemDir", "FSItemFile"}
Known == Trees \cup {"Commit", "FileBlob", "FileBlobTree", "FileBlobTree"}
Set(s) == {s[i] : i \in DOMAIN s}
Init == t \in 1 .. Len(T) /\ k = 0 /\ obj = [x \in {} |-> [ty |-> "", ch |-> <<>>]] /\ ents = {}
E == T[t][k + 1]
Next == /\ k < Len(T[t]) /\ k' = k + 1 /\ t' = t
        /\ LET new == {E.new[i].k : i \in DOMAIN E.new}
               rec == [x \in new |-> LET i == CHOOSE i \in DOMAIN E.new : E.new[i].k = x IN [ty |-> E.new[i].ty, ch |-> E.new[i].ch]]
           IN obj' = [x \in (DOMAIN obj \ Set(E.gone)) \cup new |-> IF x \in new THEN rec[x] ELSE obj[x]]
        /\ ents' = Set(E.refs)          \* the keys any history names
Ch(x) == Set(obj[x].ch)
\* the kinds of objects an object of each kind names
Kind(x) == CASE obj[x].ty = "Commit" -> /\ Len(obj[x].ch) > 0 /\ obj[obj[x].ch[1]].ty \in Trees
                                        /\ \A i \in 2 .. Len(obj[x].ch) : obj[obj[x].ch[i]].ty = "Commit"
             [] obj[x].ty = "FSItemDir" -> \A c \in Ch(x) : obj[c].ty \in Trees
             [] obj[x].ty = "FSItemFile" -> Len(obj[x].ch) = 1 /\ obj[obj[x].ch[1]].ty \in {"FileBlob", "FileBlobTree"}
             [] obj[x].ty = "FileBlobTree" -> \A c \in Ch(x) : obj[c].ty \in {"FileBlob", "FileBlobTree"}
             [] obj[x].ty = "FileBlob" -> TRUE
             [] OTHER -> FALSE                    \* does not decode
New(e) == {e.new[i].k : i \in DOMAIN e.new}
Good == k = 0 \/
  LET e == T[t][k] IN
  /\ \A x \in (IF e.gone = <<>> THEN New(e) ELSE DOMAIN obj) : Ch(x) \subseteq DOMAIN obj
  /\ ents \subseteq DOMAIN obj
\* a commit object may be made of anything stored (debug commit-tree); one in a history may not
Reach(x) == IF x \in DOMAIN obj THEN obj[x].ty = "Commit" /\ Ch(x) \subseteq DOMAIN obj /\ Kind(x) ELSE FALSE
Roots == k = 0 \/ \A x \in ents : Reach(x)
Decodes == k = 0 \/ \A x \in New(T[t][k]) : obj[x].ty \in Known /\ (obj[x].ty \in {"Commit"} \/ ~(Ch(x) \subseteq DOMAIN obj) \/ Kind(x))
Report == (Good /\ Roots /\ Decodes) \/ PrintT("@@" \o ToJson([t |-> t, k |-> k, closed |-> Good, roots |-> Roots, decodes |-> Decodes]))
Ended == k = Len(T[t]) => PrintT("@@" \o ToJson([t |-> t, k |-> 0]))
Spec == Init /\ [][Next]_vars
=============================================================================
