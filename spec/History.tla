------------------------------ MODULE History ------------------------------
(* Judges recorded concurrent histories: the commands that reported        *)
(* success must be explained by running them one after another in some     *)
(* order, with the rules of Repo.tla; the others contribute nothing.       *)
(* A commit is its content: message, tree, parents (by value).             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

H == JsonDeserialize("histories.json")
VARIABLE i

SeqToSet(s) == {s[k] : k \in DOMAIN s}
LogOf(s, r, m) == LET c == {x \in s.log : x.ref = r /\ x.rem = m} IN IF c = {} THEN <<>> ELSE (CHOOSE x \in c : TRUE).l
Put(s, r, m, l) == [s EXCEPT !.log = {x \in @ : ~(x.ref = r /\ x.rem = m)} \cup {[ref |-> r, rem |-> m, l |-> l]}]
Tip(s, r) == LET l == LogOf(s, r, "") IN IF l = <<>> THEN <<>> ELSE <<l[Len(l)]>>
RefOf(s, c) == IF c.ref = "@HEAD" THEN s.head ELSE c.ref
Reverse1(l) == [k \in 1 .. Len(l) |-> l[Len(l) + 1 - k]]
RECURSIVE Chain(_)
Chain(c) == <<c>> \o (IF c.p = <<>> THEN <<>> ELSE Chain(c.p[1]))

State(x) == [log |-> {[ref |-> y.ref, rem |-> y.rem, l |-> y.l] : y \in SeqToSet(x.log)}, head |-> x.head,
             objs |-> SeqToSet(x.objs), commits |-> SeqToSet(x.commits)]

(* what a successful command does; <<>> if it could not have succeeded in  *)
(* that state, or not with the output it printed                           *)
Apply(s, c) ==
  LET r == RefOf(s, c)
      none == <<>> IN
  CASE c.k = "commit" ->
         LET rec == [m |-> c.msg, t |-> c.tree, p |-> Tip(s, r)]
             s1 == Put(s, r, "", Append(LogOf(s, r, ""), rec))
         IN <<[s1 EXCEPT !.objs = @ \cup SeqToSet(c.objs), !.commits = @ \cup {rec}]>>
    [] c.k = "insert" -> <<[s EXCEPT !.objs = @ \cup SeqToSet(c.objs)]>>
    [] c.k = "committree" -> <<[s EXCEPT !.commits = @ \cup {[m |-> "", t |-> c.tree, p |-> c.par]}]>>
    [] c.k = "refupdate" -> <<Put(s, r, "", Append(LogOf(s, r, ""), c.id))>>
    [] c.k = "reflogpush" -> <<Put(s, r, c.rem, Append(LogOf(s, r, c.rem), c.id))>>
    [] c.k = "sethead" -> <<[s EXCEPT !.head = c.ref]>>
    [] c.k = "checkouthead" ->
         LET t == Tip(s, s.head) IN
         IF (t = <<>> /\ c.empty) \/ (t # <<>> /\ t[1].t = c.tree) THEN <<[s EXCEPT !.head = c.ref, !.objs = @ \cup SeqToSet(c.objs)]>> ELSE none
    [] c.k = "refused" ->         \* checkout-head that declined: it has looked at the working tree
         LET t == Tip(s, s.head) IN
         IF (t = <<>> /\ c.empty) \/ (t # <<>> /\ t[1].t = c.tree) THEN none ELSE <<[s EXCEPT !.objs = @ \cup SeqToSet(c.objs)]>>
    [] c.k = "init" -> <<[s EXCEPT !.head = IF @ = "" THEN "master" ELSE @]>>
    [] c.k = "gethead" -> IF c.seen = s.head THEN <<s>> ELSE none
    [] c.k = "reflog" -> IF c.seen = Reverse1(LogOf(s, r, "")) THEN <<s>> ELSE none
    [] c.k = "log" -> IF Tip(s, r) # <<>> /\ c.seen = Chain(Tip(s, r)[1]) THEN <<s>> ELSE none
    [] c.k = "fetch" -> <<s>>
    [] OTHER -> none

RECURSIVE Run(_, _)
Run(s, cs) == IF cs = <<>> THEN <<s>>
              ELSE LET n == Apply(s, cs[1]) IN IF n = <<>> THEN <<>> ELSE Run(n[1], Tail(cs))

Serial(h) ==
  LET won == SelectSeq(h.cmds, LAMBDA c : c.ok)
      n == Len(won)
      orders == {f \in [1 .. n -> 1 .. n] : \A a, b \in 1 .. n : a # b => f[a] # f[b]}
  IN \E f \in orders : Run(State(h.before), [k \in 1 .. n |-> won[f[k]]]) = <<State(h.after)>>

Init == i = 0
Next == /\ i < Len(H) /\ i' = i + 1
        /\ PrintT("@@" \o ToJson([i |-> i', ok |-> Serial(H[i'])]))
Spec == Init /\ [][Next]_i
=============================================================================
