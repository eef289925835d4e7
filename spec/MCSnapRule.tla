---- MODULE MCSnapRule ----
EXTENDS SnapRule
N2 == {"a", "b"}
N3 == {"a", "b", "x"}
C1 == {"c1"}
P2 == {{}, {<<"b">>}, {<<"a">>, <<"b", "a">>}, {<<"a", "b">>}}
P3 == {{}, {<<"x">>}, {<<"a", "x">>, <<"b", "a">>}, {<<"b">>, <<"x", "b">>}}
X2 == {{}, {"b"}}
X3 == {{}, {"x"}, {"a", "x"}}
====
