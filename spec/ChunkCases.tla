----------------------------- MODULE ChunkCases -----------------------------
(* Prints the data of a family with the tree Chunker says it is stored as.  *)
EXTENDS Chunker
EmitAll == \A d \in Datas : \A s \in (IF d # <<>> /\ d[Len(d)] = 0 THEN BOOLEAN ELSE {FALSE}) :
  LET t == Stored(d, s) IN
  PrintT("@@" \o ToJson([d |-> d, s |-> s, h |-> Height(t), t |-> Shape(t), ok |-> Flat(t) = [i \in 1 .. Len(d) |-> i]]))
CInit == /\ data = <<>> /\ short = FALSE /\ EmitAll
         /\ pos = 0 /\ filled = <<>> /\ eof = FALSE /\ buf = <<>> /\ seen = 0 /\ cur = <<>>
         /\ bufs = NoBufs /\ phase = "read" /\ tree = None /\ pieces = <<>>
CNext == FALSE /\ UNCHANGED vars
=============================================================================
