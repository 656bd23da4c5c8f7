------------------------------- MODULE Arith -------------------------------
(* What solver arithmetic must return for exact operands: either the exact   *)
(* result, or the overflow error when there is no representable result.      *)
(* Each operator below is a relation between operands and an outcome         *)
(* [ok, r]: ok FALSE means the overflow error was raised.                    *)
EXTENDS BigInt, TLC

Exact(x, ok, r) == ok = Representable(x) /\ (ok => r = x)

AddOk(a, b, ok, r) == Exact(Add(a, b), ok, r)
SubOk(a, b, ok, r) == Exact(Sub(a, b), ok, r)
MulOk(a, b, ok, r) == Exact(Mul(a, b), ok, r)
NegOk(a, ok, r) == Exact(Neg(a), ok, r)
AbsOk(a, ok, r) == Exact(Abs(a), ok, r)
IncOk(a, ok, r) == Exact(Add(a, One), ok, r)
DecOk(a, ok, r) == Exact(Sub(a, One), ok, r)

MinOverMinusOne(a, b) == a = MinInt /\ b = Neg(One)
DivOk(a, b, ok, r) ==
    /\ ok = (b # BZero /\ ~ MinOverMinusOne(a, b))
    /\ ok => Representable(r) /\ IsTruncQuot(a, b, r)
\* remainder has the dividend's sign, and a - r is a multiple of b: the
\* quotient q that the implementation computes alongside witnesses that
ModOk(a, b, q, ok, r) ==
    /\ ok = (b # BZero /\ ~ MinOverMinusOne(a, b))
    /\ ok => IsRem(a, b, r) /\ Add(Mul(q, b), r) = a

\* The rounding divisions are exact; they may also raise the error when an
\* operand is the one value whose magnitude is not representable.
Touchy(S) == MinInt \in S
FloorOk(a, b, ok, r) ==
    /\ (b = BZero => ~ ok)
    /\ ok => IsFloorQuot(a, b, r)
    /\ ~ ok => (b = BZero \/ Touchy({a, b}))
CeilOk(a, b, ok, r) ==
    /\ (b = BZero => ~ ok)
    /\ ok => IsCeilQuot(a, b, r)
    /\ ~ ok => (b = BZero \/ Touchy({a, b}))

IsqrtOk(n, ok, r) ==
    /\ ok = (n[1] >= 0)
    /\ ok => r[1] >= 0 /\ Leq(Mul(r, r), n) /\ Lt(n, Mul(Add(r, One), Add(r, One)))
CeilIsqrtOk(n, ok, r) ==
    /\ ok = (n[1] >= 0)
    /\ ok => r[1] >= 0 /\ Leq(n, Mul(r, r)) /\ (r[1] > 0 => Lt(Mul(Sub(r, One), Sub(r, One)), n))

\* base^exp for exp >= 0, stopping as soon as the magnitude leaves the range;
\* callers keep |base| >= 2, so at most 64 steps are taken.
RECURSIVE PowUp(_, _, _)
PowUp(base, e, acc) ==     \* e: BigInt >= 0; [rep, v]
    IF ~ Representable(acc) THEN [rep |-> FALSE, v |-> acc]
    ELSE IF e[1] = 0 THEN [rep |-> TRUE, v |-> acc]
    ELSE PowUp(base, Sub(e, One), Mul(acc, base))

PowerOk(base, exp, ok, r) ==
    IF exp[1] = 0 \/ base = One THEN ok /\ r = One
    ELSE IF base = Neg(One) THEN ok /\ r = (IF Even(exp) THEN One ELSE Neg(One))
    ELSE IF exp[1] < 0 THEN (ok = (base[1] # 0)) /\ (ok => r = BZero)
    ELSE IF base[1] = 0 THEN ok /\ r = BZero
    ELSE LET p == PowUp(base, exp, One) IN ok = p.rep /\ (ok => r = p.v)

Power2Ok(e, ok, r) ==
    /\ ok = (e[1] >= 0 /\ Lt(e, FromInt(63)))
    /\ ok => LET p == PowUp(Two, e, One) IN r = p.v

\* Bounds of x * y over a box: the extreme corners, or the overflow error when
\* a corner is not representable.
Corners(a, b, c, d) == <<Mul(a, c), Mul(a, d), Mul(b, c), Mul(b, d)>>
Min4(s) == BMin(BMin(s[1], s[2]), BMin(s[3], s[4]))
Max4(s) == BMax(BMax(s[1], s[2]), BMax(s[3], s[4]))
ProductBoundsOk(a, b, c, d, ok, lo, hi) ==
    LET s == Corners(a, b, c, d)
    IN  /\ ok = (Representable(Min4(s)) /\ Representable(Max4(s)))
        /\ ok => lo = Min4(s) /\ hi = Max4(s)

SquareBoundsOk(a, b, ok, lo, hi) ==
    LET aa == Mul(a, a)
        bb == Mul(b, b)
    IN  /\ ok = (Representable(aa) /\ Representable(bb))
        /\ ok => /\ hi = BMax(aa, bb)
                 /\ lo = IF a[1] <= 0 /\ b[1] >= 0 THEN BZero ELSE BMin(aa, bb)

----------------------------------------------------------------------------
(* Filters, over small operands, where the exact answer can be enumerated.   *)

SquareSupported(xlo, xhi, zlo, zhi) == {x \in xlo..xhi : zlo <= x * x /\ x * x <= zhi}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
SquareFilterOk(xlo, xhi, zlo, zhi, lo, hi) ==
    LET S == SquareSupported(xlo, xhi, zlo, zhi)
    IN  IF S = {} THEN lo > hi ELSE lo = MinOf(S) /\ hi = MaxOf(S)

FloorDiv(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)
CeilDiv(a, b) == -FloorDiv(-a, b)

\* The documented case analysis of filtering x in x * y = z from boxes.
QuotientCase(ymin, ymax, zmin, zmax) ==
    IF zmin <= 0 /\ zmax >= 0 /\ ymin <= 0 /\ ymax >= 0 THEN "none"
    ELSE IF ymin = 0 /\ ymax = 0 THEN "empty"
    ELSE "bounds"
IntAbs(x) == IF x < 0 THEN -x ELSE x
QuotientBounds(ymin0, ymax0, zmin, zmax) ==
    IF ymin0 < 0 /\ ymax0 > 0
    THEN LET m == MaxOf({IntAbs(zmin), IntAbs(zmax)}) IN <<-m, m>>
    ELSE LET ymin == IF ymin0 = 0 THEN 1 ELSE ymin0
             ymax == IF ymin0 # 0 /\ ymax0 = 0 THEN -1 ELSE ymax0
         IN  <<MinOf({CeilDiv(z, y) : z \in {zmin, zmax}, y \in {ymin, ymax}}),
               MaxOf({FloorDiv(z, y) : z \in {zmin, zmax}, y \in {ymin, ymax}})>>
\* Soundness: no supported x is lost.  X bounds the x worth trying.
QuotientSound(ymin, ymax, zmin, zmax, kind, lo, hi, X) ==
    \A x \in X : (\E y \in ymin..ymax : zmin <= x * y /\ x * y <= zmax) =>
        CASE kind = "none" -> TRUE
          [] kind = "empty" -> FALSE
          [] OTHER -> lo <= x /\ x <= hi
QuotientOk(ymin, ymax, zmin, zmax, kind, lo, hi) ==
    /\ kind = QuotientCase(ymin, ymax, zmin, zmax)
    /\ kind = "bounds" => <<lo, hi>> = QuotientBounds(ymin, ymax, zmin, zmax)
    /\ LET m == MaxOf({IntAbs(zmin), IntAbs(zmax)}) + 1
       IN  QuotientSound(ymin, ymax, zmin, zmax, kind, lo, hi, (-m)..m)

----------------------------------------------------------------------------
(* Binary encodings of a variable's range.                                   *)

\* Bits of a range: magnitude bits 2^0 .. 2^shift (none when shift = -1) and
\* possibly a sign bit with coefficient neg.  MaxBits is 2^(shift + 1) - 1.
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN One ELSE Mul(Two, Pow2(n - 1))

RECURSIVE WidthFrom(_, _, _)
WidthFrom(a, n, p) == IF Lt(a, p) THEN n ELSE WidthFrom(a, n + 1, Mul(p, Two))    \* p = 2^n
BitsOf(a) == WidthFrom(a, 0, One)    \* bit width of a >= 0

EncHighest(lower, upper) == IF lower[1] < 0 THEN BMax(Sub(Abs(lower), One), upper) ELSE upper

\* The encoding reaches every value of the range, has a sign bit exactly when
\* the range has negative values, and has no superfluous bit.
EncodingOk(lower, upper, shift, coeff, neg) ==
    LET h == EncHighest(lower, upper)
        w == BitsOf(h)
    IN  /\ shift = w - 1
        /\ coeff = (IF w = 0 THEN BZero ELSE Pow2(w - 1))
        /\ neg = (IF lower[1] < 0 THEN Neg(Pow2(w)) ELSE BZero)
        \* and so the extremes are reachable:
        /\ Leq(Add(neg, BZero), lower)
        /\ Leq(upper, Sub(Pow2(w), One))

EncodingFits(lower, upper) ==
    /\ lower # MinInt
    /\ LET w == BitsOf(EncHighest(lower, upper))
       IN  (IF lower[1] < 0 THEN w ELSE w - 1) < 63
=============================================================================
