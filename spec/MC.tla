--------------------------------- MODULE MC ---------------------------------
(* Bounds for the exhaustive check of WiggleGraph.                         *)
EXTENDS WiggleGraph
Nd(l, p) == [h |-> "", l |-> l, p |-> p]
Rl(nm, p, d) == [h |-> "", n |-> nm, p |-> p, d |-> d]
P(ns, rs) == [ns |-> ns, rs |-> rs]
One == <<<<"a", "i:1">>>>
Two == <<<<"b", "s:x">>, <<"a", "i:1">>>>
mA == <<<<P(<<Nd("A", <<>>)>>, <<>>)>>>>
mAB == <<<<P(<<Nd("A", One), Nd("B", <<>>)>>, <<Rl("R", One, ">")>>)>>>>
mBA == <<<<P(<<Nd("A", <<>>), Nd("B", Two)>>, <<Rl("", <<>>, "<")>>)>>>>
mABC == <<<<P(<<Nd("A", <<>>), Nd("B", One), Nd("C", Two)>>, <<Rl("R", <<>>, "<"), Rl("S", Two, ">")>>)>>>>
mIn == <<<<P(<<Nd("B", <<>>), Nd("A", One), Nd("B", One)>>, <<Rl("S", <<>>, ">"), Rl("R", One, "<")>>), P(<<Nd("C", <<>>)>>, <<>>)>>>>
mTwo == <<<<P(<<Nd("C", <<>>)>>, <<>>)>>, <<P(<<Nd("A", <<>>), Nd("C", <<>>)>>, <<Rl("S", <<>>, ">")>>)>>>>
MakesSmall == {mA, mAB, mABC}
MakesBig == {mA, mAB, mBA, mABC, mIn, mTwo}
FindsSmall == {P(<<Nd("A", <<>>)>>, <<>>), P(<<Nd("A", One), Nd("B", <<>>)>>, <<Rl("R", <<>>, ">")>>)}
FindsBig == FindsSmall \cup {P(<<Nd("C", Two)>>, <<>>), P(<<Nd("D", <<>>)>>, <<>>),
              P(<<Nd("B", <<>>), Nd("A", <<>>)>>, <<Rl("", <<>>, ">")>>),
              P(<<Nd("A", <<>>), Nd("B", <<>>), Nd("C", <<>>)>>, <<Rl("R", <<>>, "<"), Rl("S", <<>>, ">")>>),
              P(<<Nd("A", <<>>), Nd("D", <<>>)>>, <<Rl("T", <<>>, ">")>>)}
=============================================================================
