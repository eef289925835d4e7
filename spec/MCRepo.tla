------------------------------- MODULE MCRepo -------------------------------
EXTENDS Repo, Randomization
N1 == {"a"}
N2 == {"a", "b"}
N3 == {"a", "b", "x"}
C1 == {"c1"}
C2 == {"c1", "c2"}
C3 == {"c1", "c2", "c3"}
R1 == {"master"}
R2 == {"master", "r1"}
R3 == {"master", "r1", "r2"}
M0 == {}
M1 == {"o1"}
M2 == {"o1", "o2"}
G1 == {"m1"}
G2 == {"m1", "m2"}
G3 == {"m1", "m2", "m3"}
X0 == {{}}
X1 == {{}, {"x"}}
XB == {{}, {"b"}}
WNone == {}
F(c) == File(c)
\* small pools of working trees for the exhaustive configurations
W2 == {EmptyDir, Dir([a |-> File("c1")])}
W3 == W2 \cup {Dir([a |-> File("c2")])}
W5 == W3 \cup {Dir([a |-> Dir([b |-> File("c1")])]), Dir([a |-> EmptyDir])}
W6 == W5 \cup {Dir([a |-> File("c1"), b |-> File("c2")])}
WX == {EmptyDir, Dir([a |-> File("c1")]), Dir([a |-> File("c1"), x |-> File("c2")]), Dir([a |-> Dir([x |-> File("c1")])]), Dir([x |-> File("c1")])}
ACommit == {"edit", "commit", "sethead", "refupdate"}
ACommitP == {"edit", "commit", "commitpath", "sethead"}
ARef == {"edit", "commit", "refupdate", "reflogpush", "refget", "reflog", "sethead"}
AHead == {"edit", "commit", "checkouthead", "sethead", "gethead"}
AInit == {"edit", "init", "initnested", "commit", "sethead", "insert", "refupdate", "gethead"}
ALog == {"edit", "commit", "committree", "log", "sethead", "insert"}
AShow == {"edit", "commit", "commitpath", "committree", "insert", "showfile"}
AList == {"edit", "commit", "commitpath", "committree", "insert", "walktree", "walkfs", "pretty"}
ALog3 == ALog \cup {"committree3"}
ALong == {"edit", "commit", "log"}
ACheckoutP == {"edit", "commit", "commitpath", "checkout", "sethead", "checkouthead", "insert"}
ACheckout == {"edit", "commit", "checkout", "sethead"}
AAll == {"edit", "insert", "commit", "committree", "refupdate", "reflogpush", "refbad", "sethead", "checkouthead", "status",
         "compare", "refget", "reflog", "fetch", "gethead", "log"}
AForeign == AAll \cup AList \cup {"showfile"}
AAllFail == AAll \cup {"fail"}
AStore == {"edit", "insert", "commit", "refupdate", "refbad", "fetch", "sethead"}
AFetch == {"edit", "insert", "commit", "commitpath", "fetch", "sethead", "refupdate"}
AInspect == {"edit", "insert", "commit", "committree", "sethead", "status", "compare", "refget", "reflog", "fetch", "gethead", "log", "fail", "reflogpush"}
AGraph == {"edit", "insert", "commit", "commitpath", "committree", "refupdate", "reflogpush", "checkouthead", "refbad", "fail"}
ACrash == {"init", "edit", "insert", "commit", "committree", "refupdate", "reflogpush", "sethead", "checkouthead", "refbad", "reflog"}
AFail == {"edit", "commit", "insert", "refupdate", "fail", "refbad"}
=============================================================================
