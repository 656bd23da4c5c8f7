--------------------------------- MODULE Dzn ---------------------------------
(* Data files, character by character: what a text of "name = value;"        *)
(* statements defines, and how each value reads as a number, a list, a       *)
(* matrix or a list of sets.  Texts are sequences of character codes.        *)
(* An outcome is [ok |-> TRUE, v |-> value] or Bad.                          *)
EXTENDS BigInt, TLC

Reject(why) == [ok |-> FALSE, v |-> << >>, why |-> why]
Bad == Reject("malformed")
Good(v) == [ok |-> TRUE, v |-> v]

Space == {32, 9, 13, 10}
White == {32, 9, 10, 11, 12, 13}
Digit == 48..57
Percent == 37
Semi == 59
Equals == 61
Comma == 44
Bar == 124
LBracket == 91
RBracket == 93
LBrace == 123
RBrace == 125

\* Positions in increasing order at which t has a character of S.
Where(t, S) == SelectSeq([i \in 1..Len(t) |-> IF t[i] \in S THEN i ELSE 0], LAMBDA x : x # 0)
First(t, S) == LET w == Where(t, S) IN IF w = << >> THEN 0 ELSE w[1]
Last(t, S) == LET w == Where(t, S) IN IF w = << >> THEN 0 ELSE w[Len(w)]

\* The pieces between the characters of S; one more than there are of those.
Split(t, S) ==
    LET w == << 0 >> \o Where(t, S) \o << Len(t) + 1 >>
    IN  TLCEval([i \in 1..(Len(w) - 1) |-> SubSeq(t, w[i] + 1, w[i + 1] - 1)])
\* The non-empty ones.
Tokens(t, S) == SelectSeq(Split(t, S), LAMBDA p : p # << >>)

Blank(t) == \A i \in 1..Len(t) : t[i] \in Space
Trim(t) ==
    LET keep == SelectSeq([i \in 1..Len(t) |-> IF t[i] \in Space THEN 0 ELSE i], LAMBDA x : x # 0)
    IN  IF keep = << >> THEN << >> ELSE SubSeq(t, keep[1], keep[Len(keep)])

RECURSIVE Flatten(_, _, _)
Flatten(ps, i, acc) == IF i > Len(ps) THEN acc ELSE Flatten(ps, i + 1, acc \o ps[i] \o << 10 >>)

\* Every line up to its first percent sign.
Uncommented(t) ==
    LET lines == Split(t, {10})
    IN  Flatten([i \in 1..Len(lines) |-> LET c == First(lines[i], {Percent}) IN IF c = 0 THEN lines[i] ELSE SubSeq(lines[i], 1, c - 1)], 1, << >>)

\* The statements that define something, as <<name, value>> pairs.
Definitions(t) ==
    LET st == Split(Uncommented(t), {Semi})
        pair(s) == LET e == First(s, {Equals}) IN IF e = 0 THEN << << >>, << >> >> ELSE << Trim(SubSeq(s, 1, e - 1)), Trim(SubSeq(s, e + 1, Len(s))) >>
    IN  SelectSeq([i \in 1..Len(st) |-> pair(st[i])], LAMBDA p : p[1] # << >>)

Names(t) == LET d == Definitions(t) IN {d[i][1] : i \in 1..Len(d)}
\* No name is defined twice.
Readable(t) == LET d == Definitions(t) IN \A i, j \in 1..Len(d) : i # j => d[i][1] # d[j][1]
Defines(t, n) == n \in Names(t)
Value(t, n) == LET d == Definitions(t) IN d[CHOOSE i \in 1..Len(d) : d[i][1] = n][2]

-----------------------------------------------------------------------------
\* Numbers: an optional sign and digits, and representable.
RECURSIVE Digits(_, _, _)
Digits(w, i, acc) == IF i > Len(w) THEN acc ELSE Digits(w, i + 1, Add(Mul(acc, FromInt(10)), FromInt(w[i] - 48)))
NumberText(w) ==
    /\ w # << >>
    /\ LET d == IF w[1] \in {43, 45} THEN SubSeq(w, 2, Len(w)) ELSE w
       IN  d # << >> /\ \A i \in 1..Len(d) : d[i] \in Digit
NumberOf(w) == LET d == IF w[1] \in {43, 45} THEN SubSeq(w, 2, Len(w)) ELSE w
                   m == Digits(d, 1, BZero)
               IN  IF w[1] = 45 THEN Neg(m) ELSE m
IsNumber(w) == NumberText(w) /\ Representable(NumberOf(w))

\* Made of digits and signs, but not a number that can be represented.
NearNumber(w) == \A i \in 1..Len(w) : w[i] \in Digit \cup {43, 45}
NumberList(t) ==
    LET ws == Tokens(t, White \cup {Comma})
    IN  IF \A i \in 1..Len(ws) : IsNumber(ws[i]) THEN Good([i \in 1..Len(ws) |-> NumberOf(ws[i])])
        ELSE IF \A i \in 1..Len(ws) : NearNumber(ws[i]) THEN Reject("near number")
        ELSE Bad

\* What is between the outermost brackets.
Bracketed(v) ==
    LET a == First(v, {LBracket})
        b == Last(v, {RBracket})
    IN  IF a = 0 \/ b = 0 \/ b < a THEN Bad ELSE Good(SubSeq(v, a + 1, b - 1))

AsInteger(v) == LET ws == Tokens(v, White) IN IF Len(ws) = 1 /\ IsNumber(ws[1]) THEN Good(NumberOf(ws[1])) ELSE Bad
AsIntegers(v) ==
    LET b == Bracketed(v)
    IN  IF ~ b.ok THEN Bad ELSE NumberList([i \in 1..Len(b.v) |-> IF b.v[i] = Bar THEN 32 ELSE b.v[i]])

True1 == << 116, 114, 117, 101 >>
False1 == << 102, 97, 108, 115, 101 >>
AsBools(v) ==
    LET b == Bracketed(v)
        ws == Tokens(b.v, White \cup {Comma})
    IN  IF ~ b.ok THEN Bad
        ELSE IF \A i \in 1..Len(ws) : ws[i] \in {True1, False1, << 48 >>, << 49 >>}
             THEN Good([i \in 1..Len(ws) |-> ws[i] \in {True1, << 49 >>}])
        ELSE Bad

AsMatrix(v) ==
    LET b == Bracketed(v)
        t == Trim(b.v)
        ps == SelectSeq(Split(b.v, {Bar}), LAMBDA p : ~ Blank(p))
        rows == TLCEval([i \in 1..Len(ps) |-> NumberList(ps[i])])
    IN  IF ~ b.ok \/ t = << >> \/ t[1] # Bar THEN Bad
        ELSE IF \E i \in 1..Len(rows) : ~ rows[i].ok THEN rows[CHOOSE i \in 1..Len(rows) : ~ rows[i].ok]
        ELSE IF \E i \in 1..Len(rows) : Len(rows[i].v) # Len(rows[1].v) THEN Bad
        ELSE Good([i \in 1..Len(rows) |-> rows[i].v])

\* Sets separated by white space and commas, and nothing else outside braces.
AsSets(v) ==
    LET b == Bracketed(v)
        t == b.v
        marks == TLCEval(Where(t, {LBrace, RBrace}))
        balanced == /\ Len(marks) % 2 = 0
                    /\ \A i \in 1..Len(marks) : t[marks[i]] = (IF i % 2 = 1 THEN LBrace ELSE RBrace)
        n == Len(marks) \div 2
        inside == TLCEval([i \in 1..n |-> NumberList(SubSeq(t, marks[2 * i - 1] + 1, marks[2 * i] - 1))])
        outside == \A p \in 1..Len(t) :
                      \/ t[p] \in {LBrace, RBrace, Comma} \cup White
                      \/ \E i \in 1..n : marks[2 * i - 1] < p /\ p < marks[2 * i]
    IN  IF ~ b.ok \/ ~ balanced THEN Bad
        ELSE IF ~ outside THEN Bad
        ELSE IF \E i \in 1..n : ~ inside[i].ok THEN inside[CHOOSE i \in 1..n : ~ inside[i].ok]
        ELSE Good([i \in 1..n |-> inside[i].v])

Read(t, n, how) ==
    IF ~ Defines(t, n) THEN Bad
    ELSE LET v == Value(t, n)
         IN  CASE how = "integer" -> AsInteger(v)
               [] how = "integers" -> AsIntegers(v)
               [] how = "bools" -> AsBools(v)
               [] how = "matrix" -> AsMatrix(v)
               [] how = "sets" -> AsSets(v)
=============================================================================
