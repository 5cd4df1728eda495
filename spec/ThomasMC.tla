---- MODULE ThomasMC ----
EXTENDS Thomas
V3 == {<<0,0>>,<<1,0>>,<<0,1>>}
V4 == V3 \cup {<<2,0>>}
====
