---- MODULE MCPathJoin ----
EXTENDS PathJoin
DestP == <<"S", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "dest">>
AbsP == <<"S", "a1", "a2", "a3", "a4", "a5", "a6", "a7">>
====
