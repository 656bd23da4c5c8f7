-------------------------------- MODULE Names --------------------------------
(* A model being built: the names taken, the variables and constraints in the  *)
(* order they were made, and the objective.  Names are sequences of character  *)
(* codes.                                                                       *)
EXTENDS Integers, Sequences

Underscore == 95
LSq == 91
RSq == 93
LBr == 123
RBr == 125
Letter(c) == (65 <= c /\ c <= 90) \/ (97 <= c /\ c <= 122)
DigitC(c) == 48 <= c /\ c <= 57
Inner(c) == Letter(c) \/ DigitC(c) \/ c \in {LSq, RSq, LBr, RBr, Underscore, 45}

\* any number of underscores, a letter, then letters, digits, brackets, dashes
\* and underscores
RECURSIVE Lead(_, _)
Lead(s, i) == IF i > Len(s) THEN i ELSE IF s[i] = Underscore THEN Lead(s, i + 1) ELSE i
Shaped(s) ==
    LET i == Lead(s, 1)
    IN  i <= Len(s) /\ Letter(s[i]) /\ \A j \in (i + 1)..Len(s) : Inner(s[j])

RECURSIVE Balance(_, _, _)
Balance(s, i, open) ==
    IF i > Len(s) THEN open = <<>>
    ELSE CASE s[i] \in {LSq, LBr} -> Balance(s, i + 1, Append(open, s[i]))
           [] s[i] \in {RSq, RBr} ->
                /\ open # <<>> /\ open[Len(open)] = (IF s[i] = RSq THEN LSq ELSE LBr)
                /\ Balance(s, i + 1, SubSeq(open, 1, Len(open) - 1))
           [] OTHER -> Balance(s, i + 1, open)

Valid(s) == Shaped(s) /\ Balance(s, 1, <<>>)

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
Auto(n) == <<Underscore>> \o Digits(n)
Indexed(s, i) == s \o <<LSq>> \o Digits(i) \o <<RSq>>

\* [names, vars, cons, anon, auto, obj]
Empty == [names |-> {}, vars |-> <<>>, cons |-> <<>>, anon |-> 0, auto |-> 0, obj |-> <<>>]

Usable(m, s) == Valid(s) /\ s \notin m.names
Take(m, s) == [m EXCEPT !.names = @ \cup {s}]

\* opt is <<>> or <<name>>
AddVar(m, opt, lo, hi) ==
    IF opt = <<>>
    THEN [m EXCEPT !.anon = @ + 1, !.vars = Append(@, [name |-> Auto(m.anon + 1), lo |-> lo, hi |-> hi])]
    ELSE [Take(m, opt[1]) EXCEPT !.vars = Append(@, [name |-> opt[1], lo |-> lo, hi |-> hi])]

AddNumbered(m, type) == [m EXCEPT !.auto = @ + 1, !.cons = Append(@, [id |-> Auto(m.auto + 1), named |-> FALSE, type |-> type])]
AddNamed(m, s, type) == [Take(m, s) EXCEPT !.cons = Append(@, [id |-> s, named |-> TRUE, type |-> type])]

\* n variables called s[0], s[1], ...; the ones before the first refusal stay
RECURSIVE AddMany(_, _, _, _, _, _)
AddMany(m, i, n, opt, lo, hi) ==
    IF i = n THEN [ok |-> TRUE, m |-> m]
    ELSE LET o == IF opt = <<>> THEN opt ELSE <<Indexed(opt[1], i)>>
         IN  IF o # <<>> /\ ~Usable(m, o[1]) THEN [ok |-> FALSE, m |-> m]
             ELSE AddMany(AddVar(m, o, lo, hi), i + 1, n, opt, lo, hi)

\* No two things share a name, and automatic names are never the given ones.
Distinct(m) ==
    /\ \A i, j \in 1..Len(m.vars) : i # j => m.vars[i].name # m.vars[j].name
    /\ \A i, j \in 1..Len(m.cons) : i # j => m.cons[i].id # m.cons[j].id
    /\ \A i \in 1..Len(m.vars), j \in 1..Len(m.cons) : m.cons[j].named => m.vars[i].name # m.cons[j].id
=============================================================================
