-------------------------------- MODULE Build --------------------------------
(***************************************************************************)
(* Building queries: patterns whose property values are given as tokens,   *)
(* and what these tokens stand for.                                        *)
(***************************************************************************)
EXTENDS Render

Node(h, l, p) == [h |-> h, l |-> l, p |-> p]
Rel(h, n, p, d) == [h |-> h, n |-> n, p |-> p, d |-> d]
Pat(ns, rs) == [ns |-> ns, rs |-> rs]
N0(l) == Node("", l, <<>>)
R0(n, d) == Rel("", n, <<>>, d)
Dirs == {">", "<"}

(* the value of the tokens of a value, for the round trip                  *)
Unquote(x) == SubSeq(x, 2, Len(x) - 1)
ScalarOf(x) ==
  LET c == SubSeq(x, 1, 1) IN
  CASE c \in {"\"", "'"} -> "s:" \o Unquote(x)
    [] x = "null" -> "n:"
    [] x \in {"true", "false"} -> "b:" \o x
    [] x = "3.14" -> "f:3.14" [] x = "2.0" -> "f:2." [] x = "0.5" -> "f:0.5" [] x = "10.10" -> "f:10.1"
    [] OTHER -> "i:" \o x
ValueOf(ts) == IF ts[1] = "[" THEN "l:" \o CatS([j \in 1..Len(ts) |->
                     IF ts[j] \in {"[", "]", ","} THEN "" ELSE ScalarOf(ts[j]) \o "~"])
               ELSE ScalarOf(ts[1])
Expect(p) == [j \in 1..Len(p) |-> <<p[j][1], ValueOf(p[j][2])>>]
=============================================================================
