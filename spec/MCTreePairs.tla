---- MODULE MCTreePairs ----
EXTENDS TreePairs
N2 == {"a", "b"}
O2 == <<"a", "b">>
N3 == {"a", "b", "x"}
O3 == <<"a", "b", "x">>
X0 == {{}}
X2 == {{}, {"b"}}
X3 == {{}, {"x"}}
C2 == {"c1", "c2"}
C1 == {"c1"}
====
