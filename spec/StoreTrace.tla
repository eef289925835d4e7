----------------------------- MODULE StoreTrace -----------------------------
(* Recorded runs of the real store checked against StoreApi: each event is  *)
(* an operation of a connection with how it came out and what it answered.  *)
EXTENDS StoreApi

T == JsonDeserialize("traces.json")
VARIABLES t, k
tvars == <<com, tr, snap, own, n, last, t, k>>

TInit == /\ t \in 1 .. Len(T) /\ k = 1
         /\ com = Empty
         /\ tr = [c \in C |-> "closed"] /\ snap = [c \in C |-> <<>>] /\ own = [c \in C |-> <<>>]
         /\ n = 0 /\ last = <<>>

E == T[t][k]
Same(ans) == IF E.o.o = "list" THEN {E.set[i] : i \in DOMAIN E.set} = ans
             ELSE IF E.o.o = "refwalk" THEN E.set = ans ELSE E.ans = ans

Match == CASE E.out = "ok" -> /\ E.o.o \in Reads => Same(Answer(View(E.c), E.o))
                              /\ Ok(E.c, E.o)
           [] E.out = "busy" -> Busy(E.c, E.o)
           \* the process ended instead of reporting that it is busy
           [] E.out = "died" -> /\ MayBeBusy(E.c)
                                /\ tr' = [d \in C |-> IF d \in {E.set[i] : i \in DOMAIN E.set} THEN "closed" ELSE tr[d]]
                                /\ snap' = [d \in C |-> IF tr'[d] = "closed" THEN <<>> ELSE snap[d]]
                                /\ own' = [d \in C |-> IF tr'[d] = "closed" THEN <<>> ELSE own[d]]
                                /\ com' = com
           [] OTHER -> FALSE

TNext == /\ k <= Len(T[t]) /\ Match
         /\ k' = k + 1
         /\ UNCHANGED <<t, n, last>>
TSpec == TInit /\ [][TNext]_tvars
Done == (k > Len(T[t])) => PrintT("@@" \o ToJson([t |-> t, ok |-> TRUE, k |-> 0]))
Stuck == (k <= Len(T[t]) /\ ~ENABLED TNext) => PrintT("@@" \o ToJson([t |-> t, ok |-> FALSE, k |-> k]))
=============================================================================
