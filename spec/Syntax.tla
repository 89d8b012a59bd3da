------------------------------- MODULE Syntax -------------------------------
(* The formula language: lexical structure, grammar, canonical text, and well-formedness of LaTeX.       *)
(* A text is a sequence of one-character strings.  The grammar is stated by levels:                      *)
(*    Eq   ::= Sum [ "=" Eq ]                     Sum   ::= Prod { ("+"|"-") Prod }                      *)
(*    Prod ::= Pow { ("*"|"/") Pow }              Pow   ::= Post [ "^" Pow ]                             *)
(*    Post ::= Quant { "[" Eq "]" }               Quant ::= Meas { "{" Eq "}" }                          *)
(*    Meas ::= Prim { "+-" Prim }                                                                         *)
(*    Prim ::= number | name | function Prim | ("+"|"-") Prod | "(" Eq ")"                               *)
(*           | "[" [ Eq { "," Eq } ] "]" | "{" [ name ":" Eq { "," name ":" Eq } ] "}"                   *)
EXTENDS Field

Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
DigitVal == [c \in { Digits[i] : i \in 1..10 } |-> (CHOOSE i \in 1..10 : Digits[i] = c) - 1]
IsDigit(c) == c \in DOMAIN DigitVal
Lower == { "a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z" }
Upper == { "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z" }
IsAlpha(c) == c \in Lower \/ c \in Upper
Symbols == { "=", "+", "-", "*", "/", "^", "{", "}", "+-", "(", ")", "[", "]", ",", ":" }
FunName == [sin |-> "sin", cos |-> "cos", exp |-> "exp", ln |-> "ln"]

\* ---------------------------------------------------------------- tokens
LexError == << [t |-> "!"] >>
At1(s, i) == IF i <= Len(s) THEN s[i] ELSE ""

RECURSIVE DigitsEnd(_, _), AlphaEnd(_, _), Cat(_, _, _), Nat10(_, _, _), Res10(_, _, _, _)
DigitsEnd(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN DigitsEnd(s, i + 1) ELSE i
AlphaEnd(s, i) == IF i <= Len(s) /\ IsAlpha(s[i]) THEN AlphaEnd(s, i + 1) ELSE i
Cat(s, i, j) == IF i >= j THEN "" ELSE s[i] \o Cat(s, i + 1, j)
Nat10(s, i, acc) == IF i > Len(s) THEN acc ELSE IF acc > 10000 THEN acc ELSE Nat10(s, i + 1, acc * 10 + DigitVal[s[i]])
Res10(s, i, j, acc) == IF i >= j THEN acc ELSE Res10(s, i + 1, j, (acc * 10 + DigitVal[s[i]]) % P)
Pow10(e) == IF e >= 0 THEN PowN(10, e) ELSE PowN(Inv(10), -e)

\* number starting at i: digits [ "." digits ] [ e [sign] digits ];  <<token, next>>  or <<>> when malformed
Number(s, i) ==
  LET j == DigitsEnd(s, i)
      dot == At1(s, j) = "."
      k == IF dot THEN DigitsEnd(s, j + 1) ELSE j
      m0 == Res10(s, i, j, 0)
      mant == IF dot THEN (Res10(s, j + 1, k, m0) * Pow10(-(k - j - 1))) % P ELSE m0
      ex == At1(s, k) \in {"e", "E"}
      sg == ex /\ At1(s, k + 1) \in {"+", "-"}
      d0 == IF sg THEN k + 2 ELSE k + 1
      d1 == DigitsEnd(s, d0)
      ev == Nat10(SubSeq(s, d0, d1 - 1), 1, 0)
  IN IF ex /\ d1 = d0 THEN <<>>
     ELSE LET n == IF ex THEN d1 ELSE k
              v == IF ex THEN (mant * Pow10(IF At1(s, k + 1) = "-" THEN -ev ELSE ev)) % P ELSE mant
          \* magnitude: decimal exponent of the first digit (none of the digits need be non-zero)
              nz == { q \in i..(k - 1) : IsDigit(s[q]) /\ s[q] # "0" }
              lead == IF nz = {} THEN -100000 ELSE LET q == CHOOSE q \in nz : \A r \in nz : q <= r
                                                   IN IF q < j THEN j - 1 - q ELSE j - q
              mag == IF ex THEN (IF At1(s, k + 1) = "-" THEN lead - ev ELSE lead + ev) ELSE lead
          IN IF At1(s, n) = "." \/ IsAlpha(At1(s, n)) THEN <<>>
             ELSE << [t |-> "num", r |-> v, mag |-> mag, txt |-> Cat(s, i, n)], n >>

RECURSIVE LexFrom(_, _, _)
LexFrom(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF s[i] = " " THEN LexFrom(s, i + 1, acc)
  ELSE IF IsDigit(s[i]) THEN LET q == Number(s, i) IN IF q = <<>> THEN LexError ELSE LexFrom(s, q[2], Append(acc, q[1]))
  ELSE IF IsAlpha(s[i]) THEN LET j == AlphaEnd(s, i) IN LexFrom(s, j, Append(acc, [t |-> "name", s |-> Cat(s, i, j)]))
  ELSE IF s[i] \in Symbols THEN LexFrom(s, i + 1, Append(acc, [t |-> s[i]]))
  ELSE LexError
Lex(s) == LexFrom(s, 1, <<>>)

\* ---------------------------------------------------------------- grammar
\* a parser result is <<tree, next position>>, or <<>> when there is no parse
Node2(o, l, r) == [k |-> "b", o |-> o, l |-> l, r |-> r]
T(ts, p) == IF p <= Len(ts) THEN ts[p].t ELSE "$"
BinName(t) == IF t = "+-" THEN "unc" ELSE t

RECURSIVE PEq(_, _), PSum(_, _), PProd(_, _), PPow(_, _), PPost(_, _), PQuant(_, _), PMeas(_, _), PPrim(_, _)
RECURSIVE SumTail(_, _), ProdTail(_, _), PostTail(_, _), QuantTail(_, _), MeasTail(_, _), ListTail(_, _, _), DictTail(_, _, _)

PEq(ts, p) == LET a == PSum(ts, p) IN
  IF a = <<>> \/ T(ts, a[2]) # "=" THEN a
  ELSE LET b == PEq(ts, a[2] + 1) IN IF b = <<>> THEN b ELSE <<Node2("=", a[1], b[1]), b[2]>>

PSum(ts, p) == LET a == PProd(ts, p) IN IF a = <<>> THEN a ELSE SumTail(ts, a)
SumTail(ts, a) ==
  IF T(ts, a[2]) \notin {"+", "-"} THEN a
  ELSE LET b == PProd(ts, a[2] + 1) IN IF b = <<>> THEN b ELSE SumTail(ts, <<Node2(T(ts, a[2]), a[1], b[1]), b[2]>>)

PProd(ts, p) == LET a == PPow(ts, p) IN IF a = <<>> THEN a ELSE ProdTail(ts, a)
ProdTail(ts, a) ==
  IF T(ts, a[2]) \notin {"*", "/"} THEN a
  ELSE LET b == PPow(ts, a[2] + 1) IN IF b = <<>> THEN b ELSE ProdTail(ts, <<Node2(T(ts, a[2]), a[1], b[1]), b[2]>>)

PPow(ts, p) == LET a == PPost(ts, p) IN
  IF a = <<>> \/ T(ts, a[2]) # "^" THEN a
  ELSE LET b == PPow(ts, a[2] + 1) IN IF b = <<>> THEN b ELSE <<Node2("^", a[1], b[1]), b[2]>>

PPost(ts, p) == LET a == PQuant(ts, p) IN IF a = <<>> THEN a ELSE PostTail(ts, a)
PostTail(ts, a) ==
  IF T(ts, a[2]) # "[" THEN a
  ELSE LET b == PEq(ts, a[2] + 1) IN
       IF b = <<>> \/ T(ts, b[2]) # "]" THEN <<>> ELSE PostTail(ts, <<Node2("idx", a[1], b[1]), b[2] + 1>>)

PQuant(ts, p) == LET a == PMeas(ts, p) IN IF a = <<>> THEN a ELSE QuantTail(ts, a)
QuantTail(ts, a) ==
  IF T(ts, a[2]) # "{" THEN a
  ELSE LET b == PEq(ts, a[2] + 1) IN
       IF b = <<>> \/ T(ts, b[2]) # "}" THEN <<>> ELSE QuantTail(ts, <<Node2("units", a[1], b[1]), b[2] + 1>>)

PMeas(ts, p) == LET a == PPrim(ts, p) IN IF a = <<>> THEN a ELSE MeasTail(ts, a)
MeasTail(ts, a) ==
  IF T(ts, a[2]) # "+-" THEN a
  ELSE LET b == PPrim(ts, a[2] + 1) IN IF b = <<>> THEN b ELSE MeasTail(ts, <<Node2("unc", a[1], b[1]), b[2]>>)

PPrim(ts, p) ==
  CASE T(ts, p) = "num" -> <<[k |-> "c", r |-> ts[p].r, txt |-> ts[p].txt, mag |-> ts[p].mag], p + 1>>
    [] T(ts, p) = "name" ->
         IF ts[p].s \in DOMAIN FunName
         THEN LET a == PPrim(ts, p + 1) IN IF a = <<>> THEN a ELSE <<[k |-> "u", o |-> FunName[ts[p].s], a |-> a[1]], a[2]>>
         ELSE <<[k |-> "v", s |-> ts[p].s], p + 1>>
    [] T(ts, p) = "+" -> PProd(ts, p + 1)
    [] T(ts, p) = "-" -> LET a == PProd(ts, p + 1) IN IF a = <<>> THEN a ELSE <<[k |-> "u", o |-> "neg", a |-> a[1]], a[2]>>
    [] T(ts, p) = "(" -> LET a == PEq(ts, p + 1) IN IF a = <<>> \/ T(ts, a[2]) # ")" THEN <<>> ELSE <<a[1], a[2] + 1>>
    [] T(ts, p) = "[" -> IF T(ts, p + 1) = "]" THEN <<[k |-> "arr", x |-> <<>>], p + 2>> ELSE ListTail(ts, p + 1, <<>>)
    [] T(ts, p) = "{" -> IF T(ts, p + 1) = "}" THEN <<[k |-> "dict", m |-> <<>>], p + 2>> ELSE DictTail(ts, p + 1, <<>>)
    [] OTHER -> <<>>

ListTail(ts, p, acc) ==
  LET a == PEq(ts, p) IN
  IF a = <<>> THEN a
  ELSE IF T(ts, a[2]) = "]" THEN <<[k |-> "arr", x |-> Append(acc, a[1])], a[2] + 1>>
  ELSE IF T(ts, a[2]) = "," THEN ListTail(ts, a[2] + 1, Append(acc, a[1])) ELSE <<>>

\* the key is any formula that denotes a variable, so that {(x):1} names x; a repeated key takes the last value
PutKey(m, key, val) ==
  IF \E i \in 1..Len(m) : m[i][1] = key
  THEN [i \in 1..Len(m) |-> IF m[i][1] = key THEN <<key, val>> ELSE m[i]]
  ELSE Append(m, <<key, val>>)
DictTail(ts, p, acc) ==
  LET a == PEq(ts, p) IN
  IF a = <<>> THEN a
  ELSE IF a[1].k # "v" \/ T(ts, a[2]) # ":" THEN <<>>
  ELSE LET b == PEq(ts, a[2] + 1) IN
       IF b = <<>> THEN b
       ELSE LET acc2 == PutKey(acc, a[1], b[1]) IN
            IF T(ts, b[2]) = "}" THEN <<[k |-> "dict", m |-> acc2], b[2] + 1>>
            ELSE IF T(ts, b[2]) = "," THEN DictTail(ts, b[2] + 1, acc2) ELSE <<>>

\* numbers beyond the range of a double are refused (DBL_MAX = 1.797..e308)
RECURSIVE TooBig(_)
TooBig(e) ==
  CASE e.k = "c" -> e.mag >= 309
    [] e.k = "u" -> TooBig(e.a)
    [] e.k = "b" -> TooBig(e.l) \/ TooBig(e.r)
    [] e.k = "arr" -> \E i \in 1..Len(e.x) : TooBig(e.x[i])
    [] e.k = "dict" -> \E i \in 1..Len(e.m) : TooBig(e.m[i][2])
    [] OTHER -> FALSE

NoParse == [k |-> "none"]
Parse(s) == LET ts == Lex(s) IN
            IF ts = LexError THEN NoParse
            ELSE LET a == PEq(ts, 1) IN
                 IF a = <<>> \/ a[2] # Len(ts) + 1 THEN NoParse
                 ELSE IF TooBig(a[1]) THEN NoParse ELSE a[1]

\* ---------------------------------------------------------------- canonical text of a tree
Level(e) ==
  CASE e.k = "b" -> (CASE e.o = "=" -> 1 [] e.o \in {"+", "-"} -> 2 [] e.o \in {"*", "/"} -> 3 [] e.o = "^" -> 4
                       [] e.o = "idx" -> 5 [] e.o = "units" -> 6 [] e.o = "unc" -> 7)
    [] e.k = "u" /\ e.o = "neg" -> 0        \* may only stand where nothing that binds tighter can follow
    [] e.k = "c" /\ e.n < 0 -> 0
    [] OTHER -> 8

RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN <<Digits[n + 1]>> ELSE Append(NatText(n \div 10), Digits[(n % 10) + 1])
\* decimal text of the non-negative dyadic n/d, d in {1, 2, 4, 8}
ConstText(n, d) == IF d = 1 THEN NatText(n)
                   ELSE NatText(n \div d) \o <<".">> \o
                        (LET f == ((n % d) * 1000) \div d IN <<Digits[(f \div 100) + 1], Digits[((f \div 10) % 10) + 1], Digits[(f % 10) + 1]>>)
NameText == [x |-> <<"x">>, y |-> <<"y">>, z |-> <<"z">>, w |-> <<"w">>, m |-> <<"m">>, s |-> <<"s">>, a |-> <<"a">>, b |-> <<"b">>]
FunText == [sin |-> <<"s","i","n">>, cos |-> <<"c","o","s">>, exp |-> <<"e","x","p">>, ln |-> <<"l","n">>]
Paren(t) == <<"(">> \o t \o <<")">>

RECURSIVE Render(_, _), RenderAt(_, _, _), RenderList(_, _, _), RenderDict(_, _, _)
\* sp: text between tokens;  full: parenthesise every operand
RenderAt(e, lv, sp) == IF Level(e) < lv THEN Paren(sp \o Render(e, sp) \o sp) ELSE Render(e, sp)
RenderList(x, i, sp) == IF i > Len(x) THEN <<>>
                        ELSE Render(x[i], sp) \o sp \o (IF i = Len(x) THEN <<>> ELSE <<",">> \o sp \o RenderList(x, i + 1, sp))
RenderDict(m, i, sp) == IF i > Len(m) THEN <<>>
                        ELSE NameText[m[i][1].s] \o sp \o <<":">> \o sp \o Render(m[i][2], sp) \o sp
                             \o (IF i = Len(m) THEN <<>> ELSE <<",">> \o sp \o RenderDict(m, i + 1, sp))
Render(e, sp) ==
  CASE e.k = "c" -> IF e.n < 0 THEN <<"-">> \o sp \o ConstText(-e.n, e.d) ELSE ConstText(e.n, e.d)
    [] e.k = "v" -> NameText[e.s]
    [] e.k = "u" /\ e.o = "neg" -> <<"-">> \o sp \o RenderAt(e.a, 3, sp)
    [] e.k = "u" -> FunText[e.o] \o <<" ">> \o RenderAt(e.a, 8, sp)
    [] e.k = "arr" -> <<"[">> \o sp \o RenderList(e.x, 1, sp) \o <<"]">>
    [] e.k = "dict" -> <<"{">> \o sp \o RenderDict(e.m, 1, sp) \o <<"}">>
    [] e.k = "b" /\ e.o = "idx" -> RenderAt(e.l, 5, sp) \o sp \o <<"[">> \o sp \o Render(e.r, sp) \o sp \o <<"]">>
    [] e.k = "b" /\ e.o = "units" -> RenderAt(e.l, 6, sp) \o sp \o <<"{">> \o sp \o Render(e.r, sp) \o sp \o <<"}">>
    [] e.k = "b" -> LET lv == Level(e)
                        rightassoc == e.o \in {"=", "^"}
                        l == RenderAt(e.l, IF rightassoc THEN lv + 1 ELSE lv, sp)
                        r == RenderAt(e.r, IF rightassoc THEN lv ELSE lv + 1, sp)
                    IN l \o sp \o <<IF e.o = "unc" THEN "+-" ELSE e.o>> \o sp \o r

\* trees equal up to the way a constant is written: -3 is the negation of 3, or the constant -3
RECURSIVE SameTree(_, _)
SameTree(e, f) ==
  CASE e.k = "c" /\ f.k = "c" -> (IF "r" \in DOMAIN e THEN e.r ELSE FRat(e.n, e.d)) = (IF "r" \in DOMAIN f THEN f.r ELSE FRat(f.n, f.d))
    [] e.k = "c" /\ f.k = "u" -> f.o = "neg" /\ f.a.k = "c" /\ (IF "r" \in DOMAIN e THEN e.r ELSE FRat(e.n, e.d)) = FNeg(f.a.r)
    [] e.k = "v" /\ f.k = "v" -> e.s = f.s
    [] e.k = "u" /\ f.k = "u" -> e.o = f.o /\ SameTree(e.a, f.a)
    [] e.k = "b" /\ f.k = "b" -> e.o = f.o /\ SameTree(e.l, f.l) /\ SameTree(e.r, f.r)
    [] e.k = "arr" /\ f.k = "arr" -> Len(e.x) = Len(f.x) /\ \A i \in 1..Len(e.x) : SameTree(e.x[i], f.x[i])
    [] e.k = "dict" /\ f.k = "dict" -> Len(e.m) = Len(f.m) /\ \A i \in 1..Len(e.m) : \E j \in 1..Len(f.m) : e.m[i][1].s = f.m[j][1].s /\ SameTree(e.m[i][2], f.m[j][2])
    [] OTHER -> FALSE

\* the grammar is faithful: the canonical text of a tree is read as that tree
Faithful(e) == SameTree(e, Parse(Render(e, <<>>))) /\ SameTree(e, Parse(Render(e, <<" ", " ">>)))

\* ---------------------------------------------------------------- LaTeX
LatexCommands == { "left", "right", "frac", "times", "sin", "cos", "ln", "exp", "log", "mathrm", "pm", "cdot", "sqrt", "operatorname", "text" }
Closer(o) == CASE o = "(" -> ")" [] o = "[" -> "]" [] o = "|" -> "|" [] o = "\\{" -> "\\}" [] OTHER -> "?"
\* st: stack of open groups, "{" for a brace group, otherwise the delimiter after \left
RECURSIVE LatexFrom(_, _, _)
LatexFrom(s, i, st) ==
  IF i > Len(s) THEN st = <<>>
  ELSE IF s[i] = "{" THEN LatexFrom(s, i + 1, Append(st, "{"))
  ELSE IF s[i] = "}" THEN Len(st) > 0 /\ st[Len(st)] = "{" /\ LatexFrom(s, i + 1, SubSeq(st, 1, Len(st) - 1))
  ELSE IF s[i] # "\\" THEN LatexFrom(s, i + 1, st)
  ELSE LET j == AlphaEnd(s, i + 1)
           cmd == Cat(s, i + 1, j)
           dl == IF At1(s, j) = "\\" THEN "\\" \o At1(s, j + 1) ELSE At1(s, j)
           nx == IF At1(s, j) = "\\" THEN j + 2 ELSE j + 1
       IN IF j = i + 1 THEN At1(s, j) \in {"{", "}", ",", " "} /\ LatexFrom(s, j + 1, st)
          ELSE IF cmd = "left" THEN Closer(dl) # "?" /\ LatexFrom(s, nx, Append(st, dl))
          ELSE IF cmd = "right" THEN Len(st) > 0 /\ st[Len(st)] # "{" /\ Closer(st[Len(st)]) = dl
                                     /\ LatexFrom(s, nx, SubSeq(st, 1, Len(st) - 1))
          ELSE cmd \in LatexCommands /\ LatexFrom(s, j, st)
LatexOk(s) == LatexFrom(s, 1, <<>>)
=============================================================================
