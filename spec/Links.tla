------------------------------- MODULE Links -------------------------------
(* Checkout where files have several names (hard links).  M1 and M2 are names *)
(* in the working tree, X matches an exclusion, Q lies outside.  A name is    *)
(* absent, a directory, or one of the files 1..3; file i holds content i to   *)
(* begin with.  With InPlace the algorithm writes into whatever file a name   *)
(* stands for, which is wrong as soon as the file has another name.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT InPlace
M == <<"M1", "M2">>
Man == {"M1", "M2"}
Oth == {"X", "Q"}
Names == Man \cup Oth
Files == 1..3
New == 4            \* a content no file holds yet
Absent == 0
Dir == 9
VARIABLES ino, data, com, at, ino0
vars == <<ino, data, com, at, ino0>>

\* files are told apart only by who shares them: number them in the order of M1, M2, X, Q
Row(f) == <<f["M1"], f["M2"], f["X"], f["Q"]>>
Canon(f) == \A i \in 1..4 : Row(f)[i] \in Files =>
              \A k \in 1..(Row(f)[i] - 1) : \E j \in 1..(i - 1) : Row(f)[j] = k

Init == /\ ino0 \in {f \in [Names -> Files \cup {Absent, Dir}] : (\A n \in Oth : f[n] \in Files) /\ Canon(f)}
        /\ com \in [Man -> Files \cup {New, Absent, Dir}]
        /\ ino = ino0 /\ data = [i \in Files \cup {10, 20} |-> i] /\ at = 0

Used(i) == Cardinality({n \in Names : ino[n] = i})
\* first whatever is not committed goes
Remove == /\ at = 0
          /\ ino' = [n \in Names |-> IF n \in Man /\ com[n] = Absent THEN Absent ELSE ino[n]]
          /\ at' = 1 /\ UNCHANGED <<data, com, ino0>>
Fresh(n) == IF n = "M1" THEN 10 ELSE 20
Put == /\ at \in 1..2
       /\ LET n == M[at] IN
          IF com[n] = Absent THEN UNCHANGED <<ino, data>>
          ELSE IF com[n] = Dir THEN ino' = [ino EXCEPT ![n] = Dir] /\ UNCHANGED data
          ELSE IF ino[n] \in Files /\ (InPlace \/ Used(ino[n]) = 1)
               THEN data' = [data EXCEPT ![ino[n]] = com[n]] /\ UNCHANGED ino
               ELSE ino' = [ino EXCEPT ![n] = Fresh(n)] /\ data' = [data EXCEPT ![Fresh(n)] = com[n]]
       /\ at' = at + 1 /\ UNCHANGED <<com, ino0>>
Next == Remove \/ Put
Spec == Init /\ [][Next]_vars

Is(n) == IF ino[n] \in {Absent, Dir} THEN ino[n] ELSE data[ino[n]]
Equal == at = 3 => \A n \in Man : Is(n) = com[n]
Untouched == \A n \in Oth : Is(n) = ino0[n]
Emit == at = 0 => PrintT("@@" \o ToJson([was |-> ino0, com |-> com]))
=============================================================================
