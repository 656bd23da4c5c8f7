------------------------------- MODULE SExpr -------------------------------
(* S-expressions: terms are <<"a", characters>> or <<"l", terms>>; a reader  *)
(* is a pushdown machine consuming one character at a time.                  *)
EXTENDS Integers, Sequences, TLC

White == {32, 9, 10, 13, 12, 11}
LPar == 40
RPar == 41

Atom(s) == <<"a", s>>
List(ts) == <<"l", ts>>

\* The machine: stack of open lists (innermost last, the first being the
\* sequence of top-level terms), characters of the atom being read, failure.
Start == [stack |-> << << >> >>, atom |-> << >>, bad |-> FALSE]

Top(m) == m.stack[Len(m.stack)]
Push(m, t) == [m EXCEPT !.stack[Len(m.stack)] = Append(Top(m), t)]
EndAtom(m) == IF m.atom = << >> THEN m ELSE [Push(m, Atom(m.atom)) EXCEPT !.atom = << >>]

Open(m0) == LET m == EndAtom(m0) IN [m EXCEPT !.stack = Append(m.stack, << >>)]
Close(m0) ==
    LET m == EndAtom(m0)
    IN  IF Len(m.stack) = 1 THEN [m EXCEPT !.bad = TRUE]
        ELSE Push([m EXCEPT !.stack = SubSeq(m.stack, 1, Len(m.stack) - 1)], List(Top(m)))
Char(m, c) ==
    IF m.bad THEN m
    ELSE IF c = LPar THEN Open(m)
    ELSE IF c = RPar THEN Close(m)
    ELSE IF c \in White THEN EndAtom(m)
    ELSE [m EXCEPT !.atom = Append(m.atom, c)]

RECURSIVE Run(_, _, _)
Run(m, s, i) == IF i > Len(s) THEN EndAtom(m) ELSE Run(Char(m, s[i]), s, i + 1)

\* All top-level terms of a text.
ReadSeq(s) ==
    LET m == Run(Start, s, 1)
    IN  IF m.bad \/ Len(m.stack) # 1 THEN [ok |-> FALSE, terms |-> << >>] ELSE [ok |-> TRUE, terms |-> m.stack[1]]
\* Exactly one.
ReadOne(s) ==
    LET r == ReadSeq(s)
    IN  IF r.ok /\ Len(r.terms) = 1 THEN [ok |-> TRUE, term |-> r.terms[1]] ELSE [ok |-> FALSE, term |-> Atom(<< >>)]

RECURSIVE Show(_), ShowAll(_, _)
ShowAll(ts, i) == IF i > Len(ts) THEN << >> ELSE (IF i > 1 THEN <<32>> ELSE << >>) \o Show(ts[i]) \o ShowAll(ts, i + 1)
Show(t) == IF t[1] = "a" THEN t[2] ELSE <<LPar>> \o ShowAll(t[2], 1) \o <<RPar>>
ShowBare(t) == IF t[1] = "a" THEN t[2] ELSE ShowAll(t[2], 1)

\* A term some text denotes: atoms non-empty and free of delimiters.
RECURSIVE Printable(_)
Printable(t) == IF t[1] = "a" THEN t[2] # << >> /\ \A i \in 1..Len(t[2]) : t[2][i] \notin (White \cup {LPar, RPar})
                ELSE \A i \in 1..Len(t[2]) : Printable(t[2][i])
=============================================================================
