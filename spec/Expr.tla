-------------------------------- MODULE Expr --------------------------------
(* Handles to integer variables, conditions on them, and weighted sums, by   *)
(* what they denote.  A handle is a record [k, i, n, o]: kind "s" (variable  *)
(* i), "v" (variable i, negated first if n, then shifted by o) or "c" (the   *)
(* constant o).  Its meaning is the affine form coefficient * variable +     *)
(* offset; a sum means a vector of coefficients and a constant; a comparison *)
(* means "this linear function is at most zero" or "is zero".                *)
EXTENDS BigInt, FiniteSets

\* coefficient -1, 0 or 1, variable or -1, offset
Form(h) == CASE h.k = "s" -> [c |-> 1, i |-> h.i, o |-> BZero]
             [] h.k = "v" -> [c |-> IF h.n THEN -1 ELSE 1, i |-> h.i, o |-> h.o]
             [] h.k = "c" -> [c |-> 0, i |-> -1, o |-> h.o]

Shifted(f, d) == [f EXCEPT !.o = Add(f.o, d)]
Negated(f) == [c |-> -f.c, i |-> f.i, o |-> Neg(f.o)]

SameHandle(a, b) ==
    /\ a.k = b.k
    /\ CASE a.k = "s" -> a.i = b.i
         [] a.k = "v" -> a.i = b.i /\ a.n = b.n /\ a.o = b.o
         [] a.k = "c" -> a.o = b.o

-----------------------------------------------------------------------------
\* Linear functions over variables 0..NV-1.
Zero(nv) == [co |-> [j \in 0..(nv - 1) |-> BZero], k |-> BZero]
Scaled(c, f, nv) == [co |-> [j \in 0..(nv - 1) |-> IF j = f.i THEN (CASE f.c = 1 -> c [] f.c = -1 -> Neg(c) [] OTHER -> BZero) ELSE BZero],
                     k |-> Mul(c, f.o)]
Plus(a, b) == [co |-> [j \in DOMAIN a.co |-> Add(a.co[j], b.co[j])], k |-> Add(a.k, b.k)]
Minus(a) == [co |-> [j \in DOMAIN a.co |-> Neg(a.co[j])], k |-> Neg(a.k)]
Shift(a, d) == [a EXCEPT !.k = Add(a.k, d)]

RECURSIVE SumFrom(_, _, _, _)
SumFrom(ts, i, acc, nv) == IF i > Len(ts) THEN acc ELSE SumFrom(ts, i + 1, Plus(acc, Scaled(ts[i].c, Form(ts[i].v), nv)), nv)
Sum(ts, nv) == SumFrom(ts, 1, Zero(nv), nv)

\* The comparison "lhs rel rhs" as a linear function that must be <= 0 (or = 0).
AtMost(lhs, rhs) == Shift(lhs, Neg(rhs))

-----------------------------------------------------------------------------
\* Whether the condition [op, lo, hi] holds of the value x.
CondHolds(d, x) ==
    CASE d.op = "eq" -> x = d.lo
      [] d.op = "ne" -> x # d.lo
      [] d.op = "ge" -> Leq(d.lo, x)
      [] d.op = "lt" -> Lt(x, d.lo)
      [] d.op = "in" -> Leq(d.lo, x) /\ Leq(x, d.hi)
      [] d.op = "out" -> ~ (Leq(d.lo, x) /\ Leq(x, d.hi))

\* Whether the relation asked for holds.
Asked(rel, x, a, b) ==
    CASE rel = "==" -> x = a
      [] rel = "!=" -> x # a
      [] rel = "<" -> Lt(x, a)
      [] rel = "<=" -> Leq(x, a)
      [] rel = ">" -> Lt(a, x)
      [] rel = ">=" -> Leq(a, x)
      [] rel = "in" -> Leq(a, x) /\ Leq(x, b)
      [] rel = "out" -> ~ (Leq(a, x) /\ Leq(x, b))

Around(a) == {Sub(a, One), a, Add(a, One)}
=============================================================================
