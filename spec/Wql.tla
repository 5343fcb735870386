-------------------------------- MODULE Wql --------------------------------
(***************************************************************************)
(* The Wiggle Query Language, as a function from query text to what the    *)
(* query must do.  The text is a sequence of one-character strings.        *)
(*                                                                         *)
(* Meaning(text) is a record                                               *)
(*   cls   "ok"   the query must be accepted and do exactly what `makes`   *)
(*                says                                                     *)
(*         "may"  it is accepted and does exactly that, or it is           *)
(*                rejected and does nothing                                *)
(*         "bad"  it must be rejected; `why` says which properties demand  *)
(*                it, as a set of <<property, reason>>                     *)
(*         "open" the language leaves the query open; only the general     *)
(*                guarantees apply                                         *)
(*   makes the patterns of the MAKE statements, one sequence per statement *)
(*   finds the patterns of the FIND statements                             *)
(*   rep   number of REPORT statements                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

(************************ characters ***************************************)
Lowers == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p",
           "q","r","s","t","u","v","w","x","y","z"}
Uppers == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P",
           "Q","R","S","T","U","V","W","X","Y","Z"}
Digits == {"0","1","2","3","4","5","6","7","8","9"}
Blanks == {" ","\t","\n","\r"}
Puncts == {"(",")","[","]","{","}",":",",",".","@","<",">"}
Illegals == {"#","%","&","*","$"}
Others == {"+","!","/","\\","=","?","^","~","|","`"}

ClassOf ==
  [c \in Lowers \cup Uppers \cup Digits \cup Blanks \cup Puncts \cup Illegals
         \cup Others \cup {"_","-",";","\"","'"} |->
     IF c \in Lowers THEN "l" ELSE IF c \in Uppers THEN "u"
     ELSE IF c \in Digits THEN "d" ELSE IF c = "_" THEN "_"
     ELSE IF c \in Blanks THEN " " ELSE IF c \in Puncts THEN "p"
     ELSE IF c = "-" THEN "-" ELSE IF c = ";" THEN ";"
     ELSE IF c = "\"" \/ c = "'" THEN "q"
     ELSE IF c \in Illegals THEN "i" ELSE "x"]
Class(c) == IF c \in DOMAIN ClassOf THEN ClassOf[c] ELSE "?"

LowerOf == [c \in Uppers |->
   CASE c="A"->"a" [] c="B"->"b" [] c="C"->"c" [] c="D"->"d" [] c="E"->"e"
     [] c="F"->"f" [] c="G"->"g" [] c="H"->"h" [] c="I"->"i" [] c="J"->"j"
     [] c="K"->"k" [] c="L"->"l" [] c="M"->"m" [] c="N"->"n" [] c="O"->"o"
     [] c="P"->"p" [] c="Q"->"q" [] c="R"->"r" [] c="S"->"s" [] c="T"->"t"
     [] c="U"->"u" [] c="V"->"v" [] c="W"->"w" [] c="X"->"x" [] c="Y"->"y"
     [] c="Z"->"z"]
Low(c) == IF c \in Uppers THEN LowerOf[c] ELSE c

(************************ tokens *******************************************)
(* A token: t  "w" word, "s" quoted text, "u" quoted text without its end, *)
(*             "p" punctuation (v is the character), "-" dashes, "x" any   *)
(*             other character                                             *)
(*          v  the text, w  white space before it                          *)
(*          lo v in lower case (words), nz v without trailing zeros,       *)
(*          k  kinds of characters in it, as a set of classes              *)
Tok(t, v, w, lo, nz, k) ==
  [t |-> t, v |-> v, w |-> w, lo |-> lo, nz |-> nz, k |-> k]
EOF == Tok("e", "", FALSE, "", "", {})

(* m: "n" between tokens, "w" in a word, "s" in quoted text                *)
LexInit == [stmts |-> <<>>, toks |-> <<>>, m |-> "n", q |-> "", b |-> "",
            lo |-> "", nz |-> "", k |-> {}, w |-> FALSE, ws |-> FALSE,
            cs |-> <<>>, weird |-> FALSE]

Flush(a) ==   \* end a word or an unfinished quoted text
  IF a.m = "n" THEN a
  ELSE [a EXCEPT !.toks = Append(@, Tok(IF a.m = "w" THEN "w" ELSE "u",
                                        a.b, a.w, a.lo, a.nz, a.k)),
                 !.m = "n", !.b = "", !.lo = "", !.nz = "", !.k = {},
                 !.ws = FALSE]

Put(a, t, c) == [a EXCEPT !.toks = Append(@, Tok(t, c, a.ws, c, c, {})),
                          !.ws = FALSE]

LexChar(a, c) ==
  LET k == Class(c) IN
  IF k = ";" THEN
     LET f == Flush(a) IN
     [f EXCEPT !.stmts = Append(@, [toks |-> f.toks, cs |-> f.cs]),
               !.toks = <<>>, !.ws = FALSE, !.cs = <<>>]
  ELSE
  LET d == [a EXCEPT !.cs = Append(@, c), !.weird = @ \/ k = "?"] IN
  IF d.m = "s" THEN
     IF c = d.q
       THEN [d EXCEPT !.toks = Append(@, Tok("s", d.b, d.w, d.lo, d.nz, d.k)),
                      !.m = "n", !.b = "", !.lo = "", !.nz = "", !.k = {},
                      !.ws = FALSE]
       ELSE [d EXCEPT !.b = @ \o c, !.k = @ \cup {IF k \in {"p", " "} THEN c ELSE k}]
  ELSE IF k \in {"l","u","d","_"} THEN
     IF d.m = "w"
       THEN [d EXCEPT !.b = @ \o c, !.lo = @ \o Low(c), !.k = @ \cup {k},
                      !.nz = IF c = "0" THEN @ ELSE d.b \o c]
       ELSE [d EXCEPT !.m = "w", !.w = d.ws, !.b = c, !.lo = Low(c), !.k = {k},
                      !.nz = IF c = "0" THEN "" ELSE c, !.ws = FALSE]
  ELSE
  LET f == Flush(d) IN
     CASE k = " " -> [f EXCEPT !.ws = TRUE]
       [] k = "q" -> [f EXCEPT !.m = "s", !.q = c, !.w = f.ws, !.b = "", !.k = {}]
       [] k = "p" -> Put(f, "p", c)
       [] k = "-" -> IF f.toks # <<>> /\ ~f.ws /\ Last(f.toks).t = "-" THEN f
                     ELSE Put(f, "-", "-")
       [] OTHER   -> Put(f, "x", c)

Lex(text) == Flush(FoldLeft(LexChar, LexInit, text))

(************************ parsing ******************************************)
AnyValue == "?"     \* a value the language leaves open

(* A parse result: ok, i the next token, v the value, fl flags: {"may"} if *)
(* the language does not say whether this is allowed, bad a set of         *)
(* <<property, reason>>.                                                   *)
Res(ok, i, v, fl, bad) == [ok |-> ok, i |-> i, v |-> v, fl |-> fl, bad |-> bad]
Fail(bad) == Res(FALSE, 0, <<>>, {}, bad)
Stray == Fail({<<"C08", "text outside the language">>, <<"C12", "malformed">>})

At(ts, i) == IF i <= Len(ts) THEN ts[i] ELSE EOF
IsP(ts, i, c) == At(ts, i).t = "p" /\ At(ts, i).v = c
IsW(ts, i) == At(ts, i).t = "w"

AllDigits(tk) == tk.t = "w" /\ tk.k = {"d"}
StartsZero(tk) == Len(tk.v) > 1 /\ SubSeq(tk.v, 1, 1) = "0"
Words3 == {"true", "false", "null"}
(* characters of quoted text that every value may contain                  *)
PlainKinds == {"l", "u", "d", "_", " ", ".", "@", "q"}

(* words that the language refuses as text, quoted or not                  *)
Reserved == {"true", "True", "false", "False", "Null", "None", "none"}

(* numbers that the language leaves open: leading zeros, or more digits     *)
(* than a decimal keeps exactly; of the latter the value is "g:..", which   *)
(* must be kept as well as a decimal can                                   *)
Inexact(ts, i) ==
  LET tk == At(ts, i) IN
  AllDigits(tk) /\ (StartsZero(tk)
    \/ (IsP(ts, i+1, ".") /\ AllDigits(At(ts, i+2)) /\ Len(tk.v) + Len(At(ts, i+2).v) > 15))
Roughly(ts, i) ==
  LET tk == At(ts, i)
      f == At(ts, i+2) IN
  IF ~StartsZero(tk) /\ ~At(ts, i+1).w /\ ~f.w /\ Len(tk.v) + Len(f.v) <= 40
  THEN "g:" \o tk.v \o "." \o f.v ELSE AnyValue
IsOpen(v) == v = AnyValue \/ SubSeq(v, 1, 2) = "g:"
SkipNumber(ts, i) == IF IsP(ts, i+1, ".") /\ AllDigits(At(ts, i+2)) THEN i + 3 ELSE i + 1

Scalar(ts, i, inList) ==
  LET tk == At(ts, i) IN
  CASE Inexact(ts, i) -> Res(TRUE, SkipNumber(ts, i), Roughly(ts, i), {"may"}, {})
    [] tk.t = "s" ->
         Res(TRUE, i + 1, "s:" \o tk.v,
             IF tk.v = "" \/ ~(tk.k \subseteq PlainKinds)
                \/ (~inList /\ tk.v \in Reserved) THEN {"may"} ELSE {}, {})
    [] AllDigits(tk) ->
         IF IsP(ts, i+1, ".") /\ ~At(ts, i+1).w /\ AllDigits(At(ts, i+2)) /\ ~At(ts, i+2).w
         THEN LET f == At(ts, i+2) IN
              Res(TRUE, i + 3, "f:" \o tk.v \o "." \o f.nz,
                  {}, {})
         ELSE Res(TRUE, i + 1, "i:" \o tk.v, {}, {})
    [] tk.t = "w" /\ tk.v = "null" -> Res(TRUE, i + 1, "n:", {}, {})
    [] tk.t = "w" /\ tk.v \in {"true", "false"} -> Res(TRUE, i + 1, "b:" \o tk.v, {}, {})
    [] tk.t = "w" /\ tk.lo \in Words3 ->
         Res(TRUE, i + 1, "n:", {}, {<<"C12", "true, false or null wrongly capitalised">>})
    [] OTHER -> Stray

RECURSIVE Elems(_, _, _)
Elems(ts, i, acc) ==      \* acc: the result so far, `i` just after "[" or ","
  LET e == Scalar(ts, i, TRUE) IN
  IF ~e.ok THEN Fail(acc.bad \cup e.bad)
  ELSE LET r == Res(TRUE, e.i, IF acc.v = AnyValue \/ IsOpen(e.v) THEN AnyValue ELSE acc.v \o e.v \o "~", acc.fl \cup e.fl, acc.bad \cup e.bad) IN
       IF IsP(ts, e.i, "]") THEN [r EXCEPT !.i = @ + 1]
       ELSE IF IsP(ts, e.i, ",") THEN
              IF IsP(ts, e.i + 1, "]") THEN [r EXCEPT !.i = @ + 2, !.fl = @ \cup {"may"}]
              ELSE Elems(ts, e.i + 1, r)
       ELSE Fail(r.bad \cup Stray.bad)

RECURSIVE Loose(_, _)     \* text without quotes: left open by the language
Loose(ts, i) == IF At(ts, i).t = "w" \/ IsP(ts, i, ".") \/ IsP(ts, i, "@")
                THEN Loose(ts, i + 1) ELSE i

Value(ts, i) ==
  LET tk == At(ts, i) IN
  IF IsP(ts, i, ",") \/ IsP(ts, i, "}") \/ tk.t = "e"
    THEN Fail({<<"C12", "property without a value">>, <<"C08", "property without a value">>})
  ELSE IF IsP(ts, i, "[") THEN
         IF IsP(ts, i + 1, "]") THEN Res(TRUE, i + 2, "l:", {"may"}, {})
         ELSE Elems(ts, i + 1, Res(TRUE, i + 1, "l:", {}, {}))
  ELSE IF (tk.t = "w" /\ ~AllDigits(tk) /\ tk.lo \notin Words3)
          \/ IsP(ts, i, ".") \/ IsP(ts, i, "@")
         THEN IF tk.t = "w" /\ "d" \in tk.k /\ SubSeq(tk.v, 1, 1) \in Digits
              THEN Stray     \* 12abc
              ELSE Res(TRUE, Loose(ts, i), AnyValue, {"may"}, {})
  ELSE Scalar(ts, i, FALSE)

RECURSIVE Pairs(_, _, _)  \* acc.v: sequence of <<name, value>>
Pairs(ts, i, acc) ==
  IF ~IsW(ts, i) \/ ~IsP(ts, i + 1, ":") THEN Fail(acc.bad \cup Stray.bad)
  ELSE LET x == Value(ts, i + 2)
           name == At(ts, i).v IN
       IF ~x.ok THEN Fail(acc.bad \cup x.bad)
       ELSE LET dup == \E j \in 1..Len(acc.v) : acc.v[j][1] = name
                r == Res(TRUE, x.i, Append(acc.v, <<name, x.v>>), acc.fl \cup x.fl,
                         acc.bad \cup x.bad \cup
                         (IF dup THEN {<<"C08", "property written twice">>} ELSE {})) IN
            IF IsP(ts, x.i, "}") THEN [r EXCEPT !.i = @ + 1]
            ELSE IF IsP(ts, x.i, ",") THEN Pairs(ts, x.i + 1, r)
            ELSE Fail(r.bad \cup Stray.bad)

Props(ts, i) ==           \* optional
  IF ~IsP(ts, i, "{") THEN Res(TRUE, i, <<>>, {}, {})
  ELSE IF IsP(ts, i + 1, "}") THEN Res(TRUE, i + 2, <<>>, {}, {})
  ELSE Pairs(ts, i + 1, Res(TRUE, i + 1, <<>>, {}, {}))

NodeAt(ts, i) ==
  IF ~IsP(ts, i, "(") THEN Stray
  ELSE LET h == IF IsW(ts, i + 1) THEN At(ts, i + 1).v ELSE ""
           j == IF IsW(ts, i + 1) THEN i + 2 ELSE i + 1 IN
       IF ~IsP(ts, j, ":") \/ ~IsW(ts, j + 1) THEN Stray
       ELSE LET p == Props(ts, j + 2) IN
            IF ~p.ok THEN p
            ELSE IF ~IsP(ts, p.i, ")") THEN Fail(p.bad \cup Stray.bad)
            ELSE Res(TRUE, p.i + 1, [h |-> h, l |-> At(ts, j + 1).v, p |-> p.v], p.fl, p.bad)

RelAt(ts, i) ==
  LET lt == IsP(ts, i, "<")
      a == IF lt THEN i + 1 ELSE i IN               \* the first dashes
  IF At(ts, a).t # "-" \/ ~IsP(ts, a + 1, "[") THEN Stray
  ELSE
  LET h == IF IsW(ts, a + 2) THEN At(ts, a + 2).v ELSE ""
      b == IF IsW(ts, a + 2) THEN a + 3 ELSE a + 2
      colon == IsP(ts, b, ":")
      nocolon == ~colon /\ h # "" /\ IsW(ts, b)      \* [handle NAME]
      named == colon /\ IsW(ts, b + 1)
      n == IF named THEN At(ts, b + 1) ELSE IF nocolon THEN At(ts, b) ELSE EOF
      p == Props(ts, IF named THEN b + 2 ELSE IF colon \/ nocolon THEN b + 1 ELSE b) IN
  IF ~p.ok THEN p
  ELSE IF ~IsP(ts, p.i, "]") \/ At(ts, p.i + 1).t # "-" THEN Fail(p.bad \cup Stray.bad)
  ELSE
  LET gt == IsP(ts, p.i + 2, ">")
      loose == (lt /\ At(ts, a).w) \/ At(ts, a + 1).w \/ At(ts, p.i + 1).w
               \/ (gt /\ At(ts, p.i + 2).w)
      bad == (IF lt = gt THEN {<<"C11", "relationship without exactly one direction">>} ELSE {})
             \cup (IF "l" \in n.k THEN {<<"C11", "relationship name not in upper case">>} ELSE {})
      fl == (IF loose \/ nocolon THEN {"may"} ELSE {})
             \cup (IF named /\ "u" \notin n.k /\ "l" \notin n.k THEN {"may"} ELSE {}) IN
  Res(TRUE, IF gt THEN p.i + 3 ELSE p.i + 2,
      [h |-> h, n |-> n.v, p |-> p.v, d |-> IF gt THEN ">" ELSE "<"],
      p.fl \cup fl, p.bad \cup bad)

(* a chain: v = [ns |-> nodes, rs |-> relationships]                       *)
RECURSIVE Chain(_, _, _)
Chain(ts, i, acc) ==
  LET tk == At(ts, i) IN
  IF tk.t = "-" \/ IsP(ts, i, "<") THEN
     LET r == RelAt(ts, i) IN
     IF ~r.ok THEN Fail(acc.bad \cup r.bad)
     ELSE LET n == NodeAt(ts, r.i) IN
          IF ~n.ok THEN Fail(acc.bad \cup r.bad \cup n.bad)
          ELSE Chain(ts, n.i,
                 Res(TRUE, n.i, [ns |-> Append(acc.v.ns, n.v), rs |-> Append(acc.v.rs, r.v)],
                     acc.fl \cup r.fl \cup n.fl, acc.bad \cup r.bad \cup n.bad))
  ELSE acc

Handles(pat) ==
  SelectSeq([j \in 1..(Len(pat.ns) + Len(pat.rs)) |->
               IF j <= Len(pat.ns) THEN pat.ns[j].h ELSE pat.rs[j - Len(pat.ns)].h],
            LAMBDA h : h # "")
NoDup(s) == \A x, y \in 1..Len(s) : x # y => s[x] # s[y]

PatternAt(ts, i) ==
  LET n == NodeAt(ts, i) IN
  IF ~n.ok THEN n
  ELSE LET c == Chain(ts, n.i, Res(TRUE, n.i, [ns |-> <<n.v>>, rs |-> <<>>], n.fl, n.bad)) IN
       IF ~c.ok THEN c
       ELSE [c EXCEPT !.bad = @
               \cup (IF Len(c.v.ns) > 3 THEN {<<"C12", "more than three nodes in a chain">>,
                                              <<"C08", "more than three nodes in a chain">>}
                     ELSE {})
               \cup (IF NoDup(Handles(c.v)) THEN {} ELSE {<<"C13", "handle used twice in a pattern">>})]

RECURSIVE SkipCommas(_, _)
SkipCommas(ts, i) == IF IsP(ts, i, ",") THEN SkipCommas(ts, i + 1) ELSE i

RECURSIVE Patterns(_, _, _)
Patterns(ts, i, acc) ==
  LET p == PatternAt(ts, i) IN
  IF ~p.ok THEN Fail(acc.bad \cup p.bad)
  ELSE LET r == Res(TRUE, p.i, Append(acc.v, p.v), acc.fl \cup p.fl, acc.bad \cup p.bad) IN
       IF At(ts, p.i).t = "e" THEN r
       ELSE IF IsP(ts, p.i, ",") THEN
              LET j == SkipCommas(ts, p.i) IN
              Patterns(ts, j, IF j > p.i + 1 THEN [r EXCEPT !.fl = @ \cup {"may"}] ELSE r)
       ELSE IF IsP(ts, p.i, "(") THEN Patterns(ts, p.i, [r EXCEPT !.fl = @ \cup {"may"}])
       ELSE Fail(r.bad \cup Stray.bad)

(* items of a REPORT; v: the handles that are used                         *)
RECURSIVE Items(_, _, _)
Items(ts, i, acc) ==
  LET j == IF At(ts, i).t = "x" /\ At(ts, i).v = "*" THEN <<i + 1, "">>
           ELSE IF ~IsW(ts, i) THEN <<0, "">>
           ELSE IF IsP(ts, i+1, ".") /\ IsW(ts, i+2) THEN <<i + 3, At(ts, i).v>>
           ELSE IF IsP(ts, i+1, "(") /\ IsW(ts, i+2) /\ IsP(ts, i+3, ")") THEN <<i + 4, At(ts, i+2).v>>
           ELSE <<i + 1, At(ts, i).v>> IN
  IF j[1] = 0 THEN Res(FALSE, 0, acc.v, {"may"}, {})
  ELSE LET r == [acc EXCEPT !.v = @ \cup (IF j[2] = "" THEN {} ELSE {j[2]})] IN
       IF At(ts, j[1]).t = "e" THEN r
       ELSE IF IsP(ts, j[1], ",") THEN Items(ts, j[1] + 1, r)
       ELSE Res(FALSE, 0, r.v, {"may"}, {})

(************************ statements ***************************************)
Count(cs, S) == Cardinality({j \in 1..Len(cs) : cs[j] \in S})
Lexical(cs) ==    \* what every MAKE and FIND must satisfy, whatever else is wrong
     (IF Count(cs, {"(", ")"}) % 2 = 1 THEN {<<"C12", "odd number of round brackets">>} ELSE {})
  \cup (IF Count(cs, {"{", "}"}) % 2 = 1 THEN {<<"C12", "odd number of curly brackets">>} ELSE {})
  \cup (IF Count(cs, {"[", "]"}) % 2 = 1 THEN {<<"C12", "odd number of square brackets">>} ELSE {})
  \cup (IF Count(cs, Illegals) > 0 THEN {<<"C12", "illegal character">>} ELSE {})

Letters(w) == [j \in 1..Len(w) |-> SubSeq(w, j, j)]
IsPermutation(w, kw) ==   \* both in lower case
  /\ Len(w) = Len(kw)
  /\ \A c \in Range(Letters(kw)) \cup Range(Letters(w)) :
        Count(Letters(w), {c}) = Count(Letters(kw), {c})
Unread == {"adjust", "criteria", "using"}

Blank(kw) == [kw |-> kw, fl |-> {}, bad |-> {}, v |-> <<>>]
Statement(s) ==
  LET ts == s.toks
      kw == At(ts, 1).lo IN
  IF ts = <<>> THEN Blank("empty")
  ELSE IF At(ts, 1).t # "w" THEN
         [Blank("none") EXCEPT !.bad = {<<"C08", "unknown statement">>, <<"C12", "unknown statement">>}]
  ELSE IF kw \in {"make", "find"} THEN
         LET p == Patterns(ts, 2, Res(TRUE, 2, <<>>, {}, {})) IN
         [kw |-> kw, v |-> IF p.ok THEN p.v ELSE <<>>, fl |-> p.fl, bad |-> p.bad \cup Lexical(s.cs)]
  ELSE IF kw = "report" THEN
         LET r == Items(ts, 2, Res(TRUE, 2, {}, {}, {})) IN
         [kw |-> kw, v |-> r.v, fl |-> r.fl, bad |-> {}]
  ELSE IF kw \in Unread THEN [Blank(kw) EXCEPT !.fl = {"may"}]
  ELSE [Blank("none") EXCEPT
          !.bad = {<<"C08", "unknown statement">>}
             \cup (IF \E k \in {"make", "find", "report"} : IsPermutation(kw, k)
                   THEN {<<"C12", "misspelt clause">>} ELSE {})]

RECURSIVE UnionAll(_)
UnionAll(ss) == IF ss = <<>> THEN {} ELSE Head(ss) \cup UnionAll(Tail(ss))

Meaning(text) ==
  LET lx == Lex(text)
      st == [j \in 1..Len(lx.stmts) |-> Statement(lx.stmts[j])]
      makes == SelectSeq(st, LAMBDA x : x.kw = "make")
      finds == SelectSeq(st, LAMBDA x : x.kw = "find")
      reps == SelectSeq(st, LAMBDA x : x.kw = "report")
      others == SelectSeq(st, LAMBDA x : x.kw \in Unread)
      fhandles == UNION {UNION {Range(Handles(finds[a].v[b])) : b \in 1..Len(finds[a].v)}
                           : a \in 1..Len(finds)}
      rhandles == UNION {reps[a].v : a \in 1..Len(reps)}
      fl == UnionAll([j \in 1..Len(st) |-> st[j].fl])
      bad == UnionAll([j \in 1..Len(st) |-> st[j].bad])
        \cup (IF lx.toks # <<>> THEN {<<"C12", "missing semicolon">>, <<"C08", "missing semicolon">>} ELSE {})
        \cup (IF Len(finds) > 1 THEN {<<"C13", "more than one FIND">>} ELSE {})
        \cup (IF Len(reps) > 1 THEN {<<"C13", "more than one REPORT">>} ELSE {})
        \cup (IF Len(reps) > 0 /\ Len(finds) = 0 THEN {<<"C13", "REPORT without FIND">>} ELSE {})
        \cup (IF Len(finds) = 1 /\ ~(rhandles \subseteq fhandles)
              THEN {<<"C13", "REPORT of a handle the FIND does not have">>} ELSE {}) IN
  [ makes |-> [j \in 1..Len(makes) |-> makes[j].v],
    finds |-> [j \in 1..Len(finds) |-> finds[j].v],
    reps |-> Len(reps),
    why |-> IF lx.weird THEN {} ELSE bad,
    cls |-> IF lx.weird THEN "open"
            ELSE IF bad # {} THEN "bad"
            ELSE IF "may" \in fl \/ (makes = <<>> /\ finds = <<>>) THEN "may" ELSE "ok" ]
=============================================================================
