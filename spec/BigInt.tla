------------------------------ MODULE BigInt -------------------------------
(* Exact integers of any size, for TLC's 32-bit arithmetic: a pair           *)
(* <<sign, limbs>> with limbs in base 10^4, least significant first, no      *)
(* leading zero limb, and zero written <<0, <<>> >>.                         *)
EXTENDS Integers, Sequences

Base == 10000
BZero == <<0, << >> >>

RECURSIVE TrimZeros(_)
TrimZeros(m) == IF m = << >> \/ m[Len(m)] # 0 THEN m ELSE TrimZeros(SubSeq(m, 1, Len(m) - 1))

Digit4(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
MaxLen(a, b) == IF Len(a) >= Len(b) THEN Len(a) ELSE Len(b)

\* -1, 0, 1 as the magnitudes compare.
RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i = 0 THEN 0
                  ELSE IF a[i] < b[i] THEN -1
                  ELSE IF a[i] > b[i] THEN 1
                  ELSE CmpAt(a, b, i - 1)
CmpMag(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpAt(a, b, Len(a))

\* cols: unnormalised columns; propagates carries (floor semantics).
RECURSIVE Carry(_, _, _, _)
Carry(cols, i, c, acc) ==
    IF i > Len(cols)
    THEN IF c = 0 THEN TrimZeros(acc) ELSE Carry(cols, i, c \div Base, Append(acc, c % Base))
    ELSE LET v == cols[i] + c IN Carry(cols, i + 1, v \div Base, Append(acc, v % Base))

AddMag(a, b) == Carry([i \in 1..MaxLen(a, b) |-> Digit4(a, i) + Digit4(b, i)], 1, 0, << >>)
\* requires a >= b
SubMag(a, b) == Carry([i \in 1..Len(a) |-> a[i] - Digit4(b, i)], 1, 0, << >>)

RECURSIVE ColSum(_, _, _, _)
ColSum(a, b, k, i) == IF i > Len(a) THEN 0
                      ELSE (IF k - i >= 1 /\ k - i <= Len(b) THEN a[i] * b[k - i] ELSE 0) + ColSum(a, b, k, i + 1)
MulMag(a, b) == IF a = << >> \/ b = << >> THEN << >>
                ELSE Carry([k \in 1..(Len(a) + Len(b) - 1) |-> ColSum(a, b, k + 1, 1)], 1, 0, << >>)

Mk(s, m) == IF m = << >> THEN BZero ELSE <<s, m>>
Neg(a) == <<-a[1], a[2]>>
Abs(a) == <<IF a[1] = 0 THEN 0 ELSE 1, a[2]>>

Add(a, b) ==
    IF a[1] = 0 THEN b
    ELSE IF b[1] = 0 THEN a
    ELSE IF a[1] = b[1] THEN <<a[1], AddMag(a[2], b[2])>>
    ELSE LET c == CmpMag(a[2], b[2])
         IN  IF c = 0 THEN BZero
             ELSE IF c > 0 THEN Mk(a[1], SubMag(a[2], b[2]))
             ELSE Mk(b[1], SubMag(b[2], a[2]))
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN BZero ELSE <<a[1] * b[1], MulMag(a[2], b[2])>>

Cmp(a, b) == IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
             ELSE IF a[1] = 0 THEN 0
             ELSE a[1] * CmpMag(a[2], b[2])
Leq(a, b) == Cmp(a, b) <= 0
Lt(a, b) == Cmp(a, b) < 0
BMin(a, b) == IF Leq(a, b) THEN a ELSE b
BMax(a, b) == IF Leq(a, b) THEN b ELSE a

\* |n| below 10^8 or so
FromInt(n) == IF n = 0 THEN BZero ELSE <<IF n < 0 THEN -1 ELSE 1, Carry(<< IF n < 0 THEN -n ELSE n >>, 1, 0, << >>)>>
One == <<1, <<1>> >>
Two == <<1, <<2>> >>

IsCanonical(a) ==
    /\ a[1] \in {-1, 0, 1}
    /\ (a[1] = 0) = (a[2] = << >>)
    /\ \A i \in 1..Len(a[2]) : a[2][i] \in 0..(Base - 1)
    /\ a[2] # << >> => a[2][Len(a[2])] # 0

\* 2^63 and the range of a 64-bit integer
Two63 == <<1, <<5808, 5477, 368, 3372, 922>> >>
MinInt == Neg(Two63)
MaxInt == Sub(Two63, One)
Representable(a) == Leq(MinInt, a) /\ Leq(a, MaxInt)

Even(a) == a[1] = 0 \/ a[2][1] % 2 = 0

\* q is a / b rounded towards zero; towards minus infinity; towards plus infinity.
IsTruncQuot(a, b, q) ==
    LET p == Mul(q, b)
        r == Sub(a, p)
    IN  Lt(Abs(r), Abs(b)) /\ (r[1] = 0 \/ r[1] = a[1])
IsRem(a, b, r) == Lt(Abs(r), Abs(b)) /\ (r[1] = 0 \/ r[1] = a[1])
IsFloorQuot(a, b, q) == LET r == Sub(a, Mul(q, b)) IN Lt(Abs(r), Abs(b)) /\ (r[1] = 0 \/ r[1] = b[1])
IsCeilQuot(a, b, q) == LET r == Sub(a, Mul(q, b)) IN Lt(Abs(r), Abs(b)) /\ (r[1] = 0 \/ r[1] = -b[1])
=============================================================================
