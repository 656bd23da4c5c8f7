----------------------------- MODULE BitsTrace -----------------------------
EXTENDS Arith, TraceBase

Init == l = 1

Encode ==
    /\ IsEvent("encode")
    /\ Holds("encoding", EncodingOk(Ev.lower, Ev.upper, Ev.shift, Ev.coeff, Ev.neg))
    /\ Holds("fits", EncodingFits(Ev.lower, Ev.upper))

\* The reader of an encoding would overflow: the predicate must have said so.
Refuse ==
    /\ IsEvent("refuse")
    /\ Holds("refused", ~ EncodingFits(Ev.lower, Ev.upper))

Fits ==
    /\ IsEvent("fits")
    /\ Check("fits", Ev.r, EncodingFits(Ev.lower, Ev.upper))

\* For a small range, every value between the bounds is some sum of the bits.
RECURSIVE SubsetSums(_, _)
SubsetSums(shift, neg) ==
    IF shift < 0 THEN {0, neg}
    ELSE LET S == SubsetSums(shift - 1, neg)
             RECURSIVE P(_)
             P(n) == IF n = 0 THEN 1 ELSE 2 * P(n - 1)
         IN  S \cup {s + P(shift) : s \in S}
SmallRange ==
    /\ IsEvent("small")
    /\ Holds("values", (Ev.lower .. Ev.upper) \subseteq SubsetSums(Ev.shift, Ev.neg))
    /\ Holds("no value lost by one bit fewer",
             Ev.shift >= 0 => ~ ((Ev.lower .. Ev.upper) \subseteq SubsetSums(Ev.shift - 1, IF Ev.neg = 0 THEN 0 ELSE Ev.neg \div 2)))
    /\ Holds("sign", (Ev.lower < 0) = (Ev.neg < 0))

Next == Encode \/ Refuse \/ Fits \/ SmallRange
Spec == Init /\ [][Next]_l
=============================================================================
