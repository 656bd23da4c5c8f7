----------------------------- MODULE NamesTrace -----------------------------
(* Validates recorded histories of models being built: which names are taken, *)
(* what identities constraints have, in every place where they can be seen.   *)
EXTENDS TraceBase, Names, FiniteSets, FiniteSetsExt
S == INSTANCE SExpr

VARIABLE m
Init == m = Empty /\ l = 1

TBegin == IsEvent("begin") /\ m' = Empty

\* out of reach: what the call did when it was refused
Outcome(want) == Check("outcome", Ev.r, want)
NameProblem(opt) == opt # <<>> /\ ~Usable(m, opt[1])

\* the handle returned is the newest of the model's variables
Newest == Check("position of the new variable", Ev.pos, Len(m.vars) + 1)

TVar ==
    /\ IsEvent("var")
    /\ IF Ev.lo > Ev.hi THEN Outcome("invalid") /\ UNCHANGED m
       ELSE IF NameProblem(Ev.name) THEN Outcome("naming") /\ UNCHANGED m
       ELSE Outcome("ok") /\ Newest /\ m' = AddVar(m, Ev.name, Ev.lo, Ev.hi)

\* a variable given by its values: the rest of the domain is a constraint
TVarDom ==
    /\ IsEvent("vardom")
    /\ LET vs == {Ev.vals[i] : i \in 1..Len(Ev.vals)}
       IN  IF vs = {} THEN Outcome("invalid") /\ UNCHANGED m
           ELSE IF NameProblem(Ev.name) THEN Outcome("naming") /\ UNCHANGED m
           ELSE /\ Outcome("ok") /\ Newest
                /\ m' = AddNumbered(AddVar(m, Ev.name, Min(vs), Max(vs)), "in")

TVec ==
    /\ IsEvent("vec")
    /\ IF Ev.lo > Ev.hi /\ Ev.n > 0 THEN Outcome("invalid") /\ UNCHANGED m
       ELSE LET r == AddMany(m, 0, Ev.n, Ev.name, Ev.lo, Ev.hi)
            IN  /\ Outcome(IF r.ok THEN "ok" ELSE "naming")
                /\ r.ok => Check("positions of the new variables", Ev.pos, [i \in 1..Ev.n |-> Len(m.vars) + i])
                /\ m' = r.m

TPost == IsEvent("post") /\ Outcome("ok") /\ m' = AddNumbered(m, Ev.type)

TPostNamed ==
    /\ IsEvent("postnamed")
    /\ IF Usable(m, Ev.name) THEN Outcome("ok") /\ m' = AddNamed(m, Ev.name, Ev.type)
       ELSE Outcome("naming") /\ UNCHANGED m

TPostAuto ==
    /\ IsEvent("postauto")
    /\ IF Ev.n = m.auto + 1 THEN Outcome("ok") /\ m' = AddNumbered(m, Ev.type)
       ELSE Outcome("naming") /\ UNCHANGED m

TObjective ==
    /\ IsEvent("objective")
    /\ m' = [m EXCEPT !.obj = IF Ev.max THEN <<[v |-> Ev.v, c |-> -Ev.c, o |-> -Ev.o]>> ELSE <<[v |-> Ev.v, c |-> Ev.c, o |-> Ev.o]>>]

Ids == [i \in 1..Len(m.cons) |-> m.cons[i].id]

\* what the model says about itself
TRead ==
    /\ IsEvent("read")
    /\ Holds("names collide", Distinct(m))
    /\ Check("variables", Ev.vars, [i \in 1..Len(m.vars) |-> <<m.vars[i].name, m.vars[i].lo, m.vars[i].hi>>])
    /\ Check("handles", Ev.handles, [i \in 1..Len(m.vars) |-> i])
    /\ Check("normal variables", Ev.normal, [i \in 1..Len(m.vars) |-> i])
    /\ Check("constraints", Ev.cons, [i \in 1..Len(m.cons) |-> <<m.cons[i].id, m.cons[i].named, m.cons[i].type>>])
    /\ Check("constraints of a type", Ev.oftype, [i \in 1..Len(SelectSeq(m.cons, LAMBDA c : c.type = "probe")) |-> SelectSeq(m.cons, LAMBDA c : c.type = "probe")[i].id])
    /\ Check("objective", Ev.obj, IF m.obj = <<>> THEN <<>> ELSE IF m.obj[1].v = 0 THEN <<0>> ELSE <<m.obj[1].v, m.obj[1].c, m.obj[1].o>>)
    /\ UNCHANGED m

\* constraints installed by a search have the identities they were posted with
TInstalled ==
    /\ IsEvent("installed")
    /\ Check("identities in a search", Ev.ids, [i \in 1..Len(SelectSeq(m.cons, LAMBDA c : c.type = "probe")) |-> SelectSeq(m.cons, LAMBDA c : c.type = "probe")[i].id])
    /\ UNCHANGED m

\* identities are values: equal exactly when they are of the same sort and
\* content
TSame == IsEvent("same") /\ Check("equality of identities", Ev.r, Ev.a = Ev.b) /\ UNCHANGED m
TText ==
    /\ IsEvent("text")
    /\ Check("text of an identity", Ev.r, IF Ev.a[1] = "unnamed" THEN <<117, 110, 110, 97, 109, 101, 100>>
                                            ELSE IF Ev.a[1] = "number" THEN <<Underscore>> \o Ev.a[2] ELSE Ev.a[2])
    /\ Check("formatted identity", Ev.f, Ev.r)
    /\ UNCHANGED m

\* the written description uses the same names
Field(t, i) == t[2][i]
TWritten ==
    /\ IsEvent("written")
    /\ LET r == S!ReadOne(Ev.text)
       IN  /\ Holds("the description is one term", r.ok)
           /\ LET vs == Tail(Field(r.term, 2)[2])
                  cs == Tail(Field(r.term, 3)[2])
              IN  /\ Check("written variables", [i \in 1..Len(vs) |-> Field(vs[i], 1)[2]], [i \in 1..Len(m.vars) |-> m.vars[i].name])
                  /\ Check("written constraints", [i \in 1..Len(cs) |-> Field(cs[i], 1)[2]], Ids)
    /\ UNCHANGED m

Next == TBegin \/ TVar \/ TVarDom \/ TVec \/ TPost \/ TPostNamed \/ TPostAuto \/ TObjective \/ TRead \/ TInstalled \/ TSame \/ TText \/ TWritten
Spec == Init /\ [][Next]_<<m, l>>
=============================================================================
