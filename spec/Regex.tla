------------------------------- MODULE Regex -------------------------------
(* The regular expression language of the Regular constraint: its concrete   *)
(* grammar, over characters, and its meaning, by partial derivatives.  The   *)
(* derivative of an expression by a symbol is a set of expressions, and only *)
(* finitely many expressions are reachable, so an expression is a finite     *)
(* transition system whose states are sets of expressions.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

----------------------------------------------------------------------------
(* Characters and tokens.  A symbol is a pair <<hi, lo>> denoting            *)
(* hi * 10^9 + lo, so that literals up to the largest Integer stay exact.    *)

Digit == 48..57
Space == {32, 9, 10}
\* "|" "+" "*" "(" ")" "?" "{" "}" "," "." "[" "]" "-" "^"
Punct == {124, 43, 42, 40, 41, 63, 123, 125, 44, 46, 91, 93, 45, 94}

Sym(v) == <<0, v>>

RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, i) == IF i <= Len(s) /\ s[i] \in Digit THEN DigitsEnd(s, i + 1) ELSE i

RECURSIVE SkipZeros(_, _, _)
SkipZeros(s, i, e) == IF i < e /\ s[i] = 48 THEN SkipZeros(s, i + 1, e) ELSE i

RECURSIVE NumVal(_, _, _, _)
NumVal(s, i, e, acc) == IF i >= e THEN acc ELSE NumVal(s, i + 1, e, acc * 10 + (s[i] - 48))

\* Value of the digits s[i..e-1] as <<hi, lo>>; hi may need two parts.
BigVal(s, i0, e) ==
    LET i == SkipZeros(s, i0, e)
        n == e - i
    IN  IF n <= 9 THEN <<0, NumVal(s, i, e, 0)>>
        ELSE IF n <= 18 THEN <<NumVal(s, i, e - 9, 0), NumVal(s, e - 9, e, 0)>>
        ELSE <<NumVal(s, i, e - 18, 0), NumVal(s, e - 18, e - 9, 0), NumVal(s, e - 9, e, 0)>>

\* 9223372036854775807
TooBig(s, i0, e) ==
    LET i == SkipZeros(s, i0, e)
        n == e - i
    IN  \/ n > 19
        \/ /\ n = 19
           /\ LET a == NumVal(s, i, i + 1, 0)
                  b == NumVal(s, i + 1, e - 9, 0)
                  c == NumVal(s, e - 9, e, 0)
              IN  \/ a > 9
                  \/ a = 9 /\ b > 223372036
                  \/ a = 9 /\ b = 223372036 /\ c > 854775807

Bad == [bad |-> TRUE]

\* Tokens: <<"int", value>> or <<"p", character>>; a bad character makes the
\* whole expression bad.
RECURSIVE Tokens(_, _)
Tokens(s, i) ==
    IF i > Len(s) THEN << >>
    ELSE IF s[i] \in Space THEN Tokens(s, i + 1)
    ELSE IF s[i] \in Digit
         THEN LET e == DigitsEnd(s, i)
              IN  IF TooBig(s, i, e) THEN << <<"bad", 0>> >>
                  ELSE << <<"int", BigVal(s, i, e)>> >> \o Tokens(s, e)
    ELSE IF s[i] \in Punct THEN << <<"p", s[i]>> >> \o Tokens(s, i + 1)
    ELSE << <<"bad", 0>> >>

----------------------------------------------------------------------------
(* Expressions: <<"eps">>, <<"sym", S>>, <<"cat", a, b>>, <<"alt", a, b>>,   *)
(* <<"star", a>>.                                                            *)

Eps == <<"eps", 0, 0>>
SymSet(S) == <<"sym", S, 0>>
Cat(a, b) == IF a = Eps THEN b ELSE IF b = Eps THEN a ELSE <<"cat", a, b>>
Alt(a, b) == <<"alt", a, b>>
Star(a) == <<"star", a, 0>>

RECURSIVE Power(_, _)
Power(a, n) == IF n <= 0 THEN Eps ELSE Cat(a, Power(a, n - 1))

RECURSIVE UpTo(_, _)
UpTo(a, n) == IF n <= 0 THEN Eps ELSE Alt(Eps, Cat(a, UpTo(a, n - 1)))

----------------------------------------------------------------------------
(* Parsing: each operator returns <<expression, next position>>; position 0  *)
(* means the tokens do not fit.                                              *)
(*   expression : term | term "|" expression                                 *)
(*   term       : factor | factor term                                       *)
(*   factor     : atom | atom ("*" "+" "?" "{n}" "{n,}" "{n,m}")             *)
(*   atom       : INTEGER | "." | "[" "^"? item+ "]" | "(" expression ")"    *)
(*   item       : INTEGER | INTEGER "-" INTEGER                              *)

Fail == <<Eps, 0>>
IsP(t, i, c) == i <= Len(t) /\ t[i] = <<"p", c>>
IsInt(t, i) == i <= Len(t) /\ t[i][1] = "int"
StartsAtom(t, i) == IsInt(t, i) \/ IsP(t, i, 46) \/ IsP(t, i, 91) \/ IsP(t, i, 40)

Small(v) == Len(v) = 2 /\ v[1] = 0
Range(a, b) ==
    IF a = b THEN {a}
    ELSE LET lo == IF a[2] <= b[2] THEN a[2] ELSE b[2]
             hi == IF a[2] <= b[2] THEN b[2] ELSE a[2]
         IN  {Sym(v) : v \in lo..hi}

RECURSIVE ParseItems(_, _, _)
ParseItems(t, i, acc) ==      \* <<set, next>>
    IF ~ IsInt(t, i) THEN <<acc, i>>
    ELSE IF IsP(t, i + 1, 45)
         THEN IF IsInt(t, i + 2) THEN ParseItems(t, i + 3, acc \cup Range(t[i][2], t[i + 2][2]))
              ELSE <<acc, 0>>
         ELSE ParseItems(t, i + 1, acc \cup {t[i][2]})

RECURSIVE ParseExpr(_, _, _), ParseTerm(_, _, _), ParseFactor(_, _, _), ParseAtom(_, _, _)

ParseAtom(t, i, sigma) ==
    IF IsInt(t, i) THEN <<SymSet({t[i][2]}), i + 1>>
    ELSE IF IsP(t, i, 46) THEN <<SymSet(sigma), i + 1>>
    ELSE IF IsP(t, i, 40)
         THEN LET e == ParseExpr(t, i + 1, sigma)
              IN  IF e[2] = 0 \/ ~ IsP(t, e[2], 41) THEN Fail ELSE <<e[1], e[2] + 1>>
    ELSE IF IsP(t, i, 91)
         THEN LET neg == IsP(t, i + 1, 94)
                  j == IF neg THEN i + 2 ELSE i + 1
                  items == ParseItems(t, j, {})
              IN  IF ~ IsInt(t, j) \/ items[2] = 0 \/ ~ IsP(t, items[2], 93) THEN Fail
                  ELSE <<SymSet(IF neg THEN sigma \ items[1] ELSE items[1]), items[2] + 1>>
    ELSE Fail

ParseFactor(t, i, sigma) ==
    LET a == ParseAtom(t, i, sigma)
        j == a[2]
    IN  IF j = 0 THEN Fail
        ELSE IF IsP(t, j, 42) THEN <<Star(a[1]), j + 1>>
        ELSE IF IsP(t, j, 43) THEN <<Cat(a[1], Star(a[1])), j + 1>>
        ELSE IF IsP(t, j, 63) THEN <<Alt(a[1], Eps), j + 1>>
        ELSE IF IsP(t, j, 123)
             THEN IF ~ IsInt(t, j + 1) THEN Fail
                  ELSE LET n == t[j + 1][2][2]
                       IN  IF IsP(t, j + 2, 125) THEN <<Power(a[1], n), j + 3>>
                           ELSE IF ~ IsP(t, j + 2, 44) THEN Fail
                           ELSE IF IsP(t, j + 3, 125) THEN <<Cat(Power(a[1], n), Star(a[1])), j + 4>>
                           ELSE IF ~ IsInt(t, j + 3) \/ ~ IsP(t, j + 4, 125) THEN Fail
                           ELSE LET m == t[j + 3][2][2]
                                IN  IF m < n THEN Fail
                                    ELSE <<Cat(Power(a[1], n), UpTo(a[1], m - n)), j + 5>>
        ELSE a

ParseTerm(t, i, sigma) ==
    LET f == ParseFactor(t, i, sigma)
    IN  IF f[2] = 0 THEN Fail
        ELSE IF StartsAtom(t, f[2])
             THEN LET r == ParseTerm(t, f[2], sigma)
                  IN  IF r[2] = 0 THEN Fail ELSE <<Cat(f[1], r[1]), r[2]>>
             ELSE f

ParseExpr(t, i, sigma) ==
    LET a == ParseTerm(t, i, sigma)
    IN  IF a[2] = 0 THEN Fail
        ELSE IF IsP(t, a[2], 124)
             THEN LET r == ParseExpr(t, a[2] + 1, sigma)
                  IN  IF r[2] = 0 THEN Fail ELSE <<Alt(a[1], r[1]), r[2]>>
             ELSE a

\* [ok, e]: the meaning of the characters s over the alphabet sigma.
Parse(s, sigma) ==
    LET t == Tokens(s, 1)
        r == ParseExpr(t, 1, sigma)
    IN  IF r[2] = Len(t) + 1 THEN [ok |-> TRUE, e |-> r[1]] ELSE [ok |-> FALSE, e |-> Eps]

----------------------------------------------------------------------------
(* Meaning.                                                                  *)

RECURSIVE Nullable(_)
Nullable(e) ==
    CASE e[1] = "eps" -> TRUE
      [] e[1] = "sym" -> FALSE
      [] e[1] = "cat" -> Nullable(e[2]) /\ Nullable(e[3])
      [] e[1] = "alt" -> Nullable(e[2]) \/ Nullable(e[3])
      [] e[1] = "star" -> TRUE

RECURSIVE Deriv(_, _)
Deriv(e, a) ==
    CASE e[1] = "eps" -> {}
      [] e[1] = "sym" -> IF a \in e[2] THEN {Eps} ELSE {}
      [] e[1] = "cat" -> {Cat(d, e[3]) : d \in Deriv(e[2], a)}
                         \cup (IF Nullable(e[2]) THEN Deriv(e[3], a) ELSE {})
      [] e[1] = "alt" -> Deriv(e[2], a) \cup Deriv(e[3], a)
      [] e[1] = "star" -> {Cat(d, e) : d \in Deriv(e[2], a)}

RECURSIVE SymbolsOf(_)
SymbolsOf(e) ==
    CASE e[1] = "eps" -> {}
      [] e[1] = "sym" -> e[2]
      [] e[1] = "star" -> SymbolsOf(e[2])
      [] OTHER -> SymbolsOf(e[2]) \cup SymbolsOf(e[3])

StepSet(D, a) == UNION {Deriv(e, a) : e \in D}
AcceptsNow(D) == \E e \in D : Nullable(e)

RECURSIVE AfterWord(_, _, _)
AfterWord(D, w, i) == IF i > Len(w) THEN D ELSE AfterWord(StepSet(D, w[i]), w, i + 1)

InLanguage(e, w) == AcceptsNow(AfterWord({e}, w, 1))
=============================================================================
