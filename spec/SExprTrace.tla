---------------------------- MODULE SExprTrace -----------------------------
EXTENDS SExpr, TraceBase

Init == l = 1

ParseOne ==
    /\ IsEvent("parse")
    /\ LET r == ReadOne(Ev.text)
       IN  /\ Check("accepted", Ev.ok, r.ok)
           /\ r.ok => Check("term", Ev.term, r.term)
ParseSeq ==
    /\ IsEvent("parseseq")
    /\ LET r == ReadSeq(Ev.text)
       IN  /\ Check("accepted", Ev.ok, r.ok)
           /\ r.ok => Check("terms", Ev.terms, r.terms)
PrintTerm ==
    /\ IsEvent("print")
    /\ Check("text", Ev.text, Show(Ev.term))
    /\ Check("bare text", Ev.bare, ShowBare(Ev.term))
    /\ Check("formatted width", Ev.twice, Show(Ev.term) \o Show(Ev.term))
\* Printing and reading back is the identity.
RoundTrip ==
    /\ IsEvent("roundtrip")
    /\ Holds("printable", Printable(Ev.term) => (Ev.ok /\ Ev.back = Ev.term))
Compare ==
    /\ IsEvent("compare")
    /\ Check("equal", Ev.eq, Ev.x = Ev.y)
    /\ Check("not equal", Ev.ne, Ev.x # Ev.y)
Kind ==
    /\ IsEvent("kind")
    /\ Check("is atom", Ev.isatom, Ev.term[1] = "a")
    /\ Check("is list", Ev.islist, Ev.term[1] = "l")
    /\ Check("as atom", Ev.asatom, Ev.term[1] = "a")
    /\ Check("as list", Ev.aslist, Ev.term[1] = "l")

Next == ParseOne \/ ParseSeq \/ PrintTerm \/ RoundTrip \/ Compare \/ Kind
Spec == Init /\ [][Next]_l
=============================================================================
