------------------------------ MODULE ExprTrace ------------------------------
(* Validates recorded constructions of handles, conditions and sums: one     *)
(* register holds a handle being shifted and negated, another a sum being    *)
(* grown term by term.                                                       *)
EXTENDS Expr, TraceBase

VARIABLES cur,     \* the affine form the register must denote
          sum      \* the linear function the sum must denote
vars == <<cur, sum, l>>

NV == 4
None == [c |-> 0, i |-> -1, o |-> BZero]
Init == cur = None /\ sum = Zero(NV) /\ l = 1

\* A fresh handle: exactly what was asked for.
Make ==
    /\ IsEvent("make")
    /\ Holds("fresh handle", SameHandle(Ev.r, Ev.want))
    /\ cur' = Form(Ev.r)
    /\ UNCHANGED sum

\* The register changed by an operator, with everything there is to see of it.
Seen(f) ==
    /\ Check("denotes", Form(Ev.r), f)
    /\ Check("affine form", Ev.affine, [c |-> FromInt(f.c), i |-> f.i, o |-> f.o])
    /\ Check("is constant", Ev.isconst, f.i = -1)
    /\ Check("constant value", Ev.const, IF f.i = -1 THEN f.o ELSE BZero)
Step(f) ==
    /\ Check("representable", Ev.ok, Representable(f.o))
    /\ IF Ev.ok THEN Seen(f) /\ cur' = f ELSE UNCHANGED cur
    /\ UNCHANGED sum
PlusOp == IsEvent("plus") /\ Step(Shifted(cur, Ev.o))
MinusOp == IsEvent("minus") /\ Step(Shifted(cur, Neg(Ev.o)))
NegOp == IsEvent("neg") /\ Step(Negated(cur))

\* Equality, order and hashes of handles.
Compare ==
    /\ IsEvent("compare")
    /\ Check("equal", Ev.eq, SameHandle(Ev.a, Ev.b))
    /\ Holds("trichotomy", /\ Ev.eq => ~ Ev.lt /\ ~ Ev.gt
                           /\ ~ Ev.eq => (Ev.lt # Ev.gt))
    /\ Holds("hash", Ev.eq => Ev.hash)
    /\ UNCHANGED <<cur, sum>>
\* a < b and b < c imply a < c
Transitive ==
    /\ IsEvent("order")
    /\ Holds("transitive", Ev.ab /\ Ev.bc => Ev.ac)
    /\ UNCHANGED <<cur, sum>>

\* Grouping handles by kind changes nothing but the type.
Homogeneous ==
    /\ IsEvent("homog")
    /\ Check("entries", Len(Ev.got), Len(Ev.given))
    /\ \A j \in 1..Len(Ev.got) : Holds("entry", SameHandle(Ev.got[j], Ev.given[j]))
    /\ Check("kind", Ev.kind,
             IF Ev.given # << >> /\ \A j \in 1..Len(Ev.given) : Ev.given[j].k = Ev.given[1].k THEN Ev.given[1].k ELSE "mixed")
    /\ UNCHANGED <<cur, sum>>

Constants ==
    /\ IsEvent("constants")
    /\ Check("constants", [j \in 1..Len(Ev.got) |-> Form(Ev.got[j])], [j \in 1..Len(Ev.given) |-> [c |-> 0, i |-> -1, o |-> Ev.given[j]]])
    /\ UNCHANGED <<cur, sum>>

Condition ==
    /\ IsEvent("cond")
    /\ LET bad == Ev.rel \in {"in", "out"} /\ Lt(Ev.b, Ev.a)
           edge == Ev.rel \in {"<=", ">"} /\ Ev.a = MaxInt
           points == Around(Ev.a) \cup Around(Ev.b) \cup {BZero}
       IN  /\ Check("outcome", Ev.ok, IF bad THEN "invalid" ELSE IF edge THEN "overflow" ELSE "ok")
           /\ Ev.ok = "ok" =>
                /\ Holds("same handle", SameHandle(Ev.d.v, Ev.x) /\ SameHandle(Ev.neg.v, Ev.x) /\ SameHandle(Ev.wide.v, Ev.x) /\ SameHandle(Ev.back.v, Ev.x))
                /\ \A p \in points :
                      LET want == Asked(Ev.rel, p, Ev.a, Ev.b)
                      IN  /\ Check(<<"condition", p>>, CondHolds(Ev.d, p), want)
                          /\ Check(<<"negated", p>>, CondHolds(Ev.neg, p), ~ want)
                          /\ Check(<<"converted", p>>, CondHolds(Ev.wide, p), want)
                          /\ Check(<<"negated twice", p>>, CondHolds(Ev.back, p), want)
                /\ Check("equal to itself", Ev.same, <<TRUE, FALSE, TRUE>>)
    /\ UNCHANGED <<cur, sum>>

\* Sums.
NewSum == IsEvent("newsum") /\ sum' = Zero(NV) /\ UNCHANGED cur
AddTerm ==
    /\ IsEvent("term")
    /\ LET s == Plus(sum, Scaled(Ev.c, Form(Ev.v), NV))
       IN  /\ Check("sum", Sum(Ev.terms, NV), s)
           /\ sum' = s
    /\ UNCHANGED cur

\* lhs rel rhs with rhs an integer (rv absent) or a weighted handle.
Compared(rel) ==
    LET rhs == IF Ev.weighted THEN Scaled(Ev.rc, Form(Ev.rv), NV) ELSE [Zero(NV) EXCEPT !.k = Ev.rc]
        diff == Plus(sum, Minus(rhs))
    IN  IF rel = ">=" THEN Minus(diff) ELSE diff
Inequality(rel) ==
    /\ IsEvent(rel)
    /\ LET want == Compared(rel)
           got == AtMost(Sum(Ev.terms, NV), Ev.rhs)
       IN  Ev.ok => /\ Check("comparison", got, want)
                    /\ (rel # "==" /\ Ev.nok) => Check("negated comparison", AtMost(Sum(Ev.nterms, NV), Ev.nrhs), Shift(Minus(want), One))
    /\ Holds("no spurious overflow", Ev.ok \/ Ev.extreme)
    /\ Holds("no spurious overflow when negating", rel = "==" \/ Ev.nok \/ Ev.extreme)
    /\ UNCHANGED <<cur, sum>>

\* A tidied sum: each variable once, in order, no zero coefficient, the
\* simplest of the three forms, and sum = tidied - modifier.
Tidy ==
    /\ IsEvent("tidy")
    /\ LET got == Sum(Ev.terms, NV)
           cs == {Ev.terms[j].c : j \in 1..Len(Ev.terms)}
       IN  /\ Check("tidied", Shift(got, Neg(Ev.modifier)), sum)
           /\ \A j \in 1..Len(Ev.terms) :
                /\ Holds("plain variable", Ev.terms[j].v.k = "s")
                /\ Holds("non-zero", Ev.terms[j].c # BZero)
                /\ j > 1 => Holds("each variable once", Ev.terms[j - 1].v.i # Ev.terms[j].v.i)
           /\ Holds("distinct variables", Cardinality({Ev.terms[j].v.i : j \in 1..Len(Ev.terms)}) = Len(Ev.terms))
           /\ Check("form", Ev.form, IF cs \subseteq {One} THEN "sum" ELSE IF cs \subseteq {One, Neg(One)} THEN "signed" ELSE "weighted")
    /\ UNCHANGED <<cur, sum>>

\* Iterating with positions gives each element with its position from zero.
Enumerated ==
    /\ IsEvent("enumerate")
    /\ Check("enumerate", Ev.got, [j \in 1..Len(Ev.given) |-> <<j - 1, Ev.given[j]>>])
    /\ UNCHANGED <<cur, sum>>

Next == \/ Make \/ PlusOp \/ MinusOp \/ NegOp \/ Compare \/ Transitive \/ Homogeneous \/ Constants \/ Condition \/ NewSum \/ AddTerm
        \/ Inequality("<=") \/ Inequality(">=") \/ Inequality("==") \/ Tidy \/ Enumerated

Spec == Init /\ [][Next]_vars
=============================================================================
