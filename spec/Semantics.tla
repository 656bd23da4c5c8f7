----------------------------- MODULE Semantics -----------------------------
(* What every kind of constraint means, independently of how the solver      *)
(* propagates it.  An assignment a is a sequence of integers, one per        *)
(* variable; a term <<v, c, o>> has the value c*a[v]+o, or o when v is 0; a  *)
(* constraint is a record whose field k names its kind.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RX == INSTANCE Regex

Range(s) == {s[i] : i \in DOMAIN s}

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
SumSeq(f) == SumTo(f, Len(f))

Val(t, a) == IF t[1] = 0 THEN t[3] ELSE t[2] * a[t[1]] + t[3]
Vals(ts, a) == TLCEval([i \in 1..Len(ts) |-> Val(ts[i], a)])

LitHolds(l, a) ==
    CASE l.op = "true"  -> TRUE
      [] l.op = "false" -> FALSE
      [] l.op = "eq"    -> Val(l.t, a) = l.k
      [] l.op = "ne"    -> Val(l.t, a) # l.k
      [] l.op = "ge"    -> Val(l.t, a) >= l.k
      [] l.op = "lt"    -> Val(l.t, a) < l.k

Reified(r, holds, a) ==
    CASE r.m = "must"    -> holds
      [] r.m = "mustnot" -> ~holds
      [] r.m = "if"      -> LitHolds(r.c, a) => holds
      [] r.m = "notif"   -> LitHolds(r.c, a) => ~holds
      [] r.m = "iff"     -> LitHolds(r.c, a) <=> holds

CountOf(P(_), n) == Cardinality({i \in 1..n : P(i)})
SumOver(F(_), n) == SumSeq([i \in 1..n |-> F(i)])

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
\* truncating division, as C++ does
TDiv(x, y) == Sgn(x) * Sgn(y) * (Abs(x) \div Abs(y))
TMod(x, y) == x - y * TDiv(x, y)

RECURSIVE PowNat(_, _)
PowNat(b, e) == IF e = 0 THEN 1 ELSE b * PowNat(b, e - 1)

\* z = x to the power of y: for negative y only where the result is an integer
PowerHolds(x, y, z) ==
    IF y >= 0
    THEN CASE x = 0 -> z = (IF y = 0 THEN 1 ELSE 0)
           [] x = 1 -> z = 1
           [] x = -1 -> z = (IF y % 2 = 0 THEN 1 ELSE -1)
           [] OTHER -> y <= 14 /\ z = PowNat(x, y)
    ELSE CASE x = 1 -> z = 1
           [] x = -1 -> z = (IF y % 2 = 0 THEN 1 ELSE -1)
           [] x = 0 -> FALSE
           [] OTHER -> z = 0

Distinct(v) == \A i, j \in 1..Len(v) : i < j => v[i] # v[j]

\* a lexicographic comparison: longer beats shorter when the prefix is equal
LexCmp(v, w) ==
    LET n == IF Len(v) < Len(w) THEN Len(v) ELSE Len(w)
        ds == {i \in 1..n : v[i] # w[i]}
    IN  IF ds = {} THEN Sgn(Len(v) - Len(w))
        ELSE LET i == CHOOSE i \in ds : \A j \in ds : i <= j
             IN  Sgn(v[i] - w[i])

\* one cycle through every position, values from 0
RECURSIVE TourFrom(_, _, _)
TourFrom(v, at, steps) ==
    IF steps = 0 THEN at = 0
    ELSE v[at + 1] \in 0..(Len(v) - 1)
         /\ (steps > 1 => v[at + 1] # 0)
         /\ TourFrom(v, v[at + 1], steps - 1)

RECURSIVE Accepts(_, _, _, _)
Accepts(tr, q, v, i) ==      \* the state reached, or -1
    IF i > Len(v) THEN q
    ELSE LET es == {k \in 1..Len(tr[q + 1]) : tr[q + 1][k][1] = v[i]}
         IN  IF es = {} THEN -1 ELSE Accepts(tr, tr[q + 1][CHOOSE k \in es : TRUE][2], v, i + 1)

RECURSIVE Layered(_, _, _, _)
Layered(tr, q, v, i) ==
    IF i > Len(v) THEN q
    ELSE LET es == {k \in 1..Len(tr[i][q + 1]) : tr[i][q + 1][k][1] = v[i]}
         IN  IF es = {} THEN -1 ELSE Layered(tr, tr[i][q + 1][CHOOSE k \in es : TRUE][2], v, i + 1)

OpHolds(op, x, y) ==
    CASE op = "lt" -> x < y
      [] op = "le" -> x <= y
      [] op = "eq" -> x = y
      [] op = "ne" -> x # y
      [] op = "gt" -> x > y
      [] op = "ge" -> x >= y

EntryHolds(e, a) ==
    CASE e.e = "bin" -> OpHolds(e.op, Val(e.a, a), Val(e.b, a))
      [] e.e = "val" -> OpHolds(e.op, Val(e.a, a), e.v)
      [] e.e = "set" -> (Val(e.a, a) \in Range(e.set)) = e.in

RowMatches(row, v) == \A i \in 1..Len(v) : row[i] = 99 \/ row[i] = v[i]

\* t comes before s in v: the first s, if any, is after a t
PrecededBy(v, t, s) ==
    \A i \in 1..Len(v) : v[i] = s => \E j \in 1..(i - 1) : v[j] = t

\* tasks: is task i running (or, for a zero length, at a point) at time t
Present(c, i, a) == c.pres = <<>> \/ Val(c.pres[i], a) = 1

WordOf(c, a) == Vals(c.xs, a)

Holds2(c, a, v) ==
    CASE c.k = "alldiff" -> Distinct(v)
      [] c.k = "alldiffexcept" ->
            \A i, j \in 1..Len(v) : i < j /\ v[i] = v[j] => v[i] \in Range(c.except)
      [] c.k = "symalldiff" ->
            \A i \in 1..Len(v) : /\ v[i] - c.start + 1 \in 1..Len(v)
                                 /\ v[v[i] - c.start + 1] = i + c.start - 1
      [] c.k = "allequal" -> \A i, j \in 1..Len(v) : v[i] = v[j]
      [] c.k = "among" ->
            LET S == Range(c.vals) IN CountOf(LAMBDA i : v[i] \in S, Len(v)) = Val(c.y, a)
      [] c.k \in {"atmostone", "atmostonesmart"} ->
            LET y == Val(c.y, a) IN CountOf(LAMBDA i : v[i] = y, Len(v)) <= 1
      [] c.k = "binpackingload" ->
            \A b \in 1..Len(c.loads) :
                SumOver(LAMBDA i : IF v[i] = b - 1 THEN c.sizes[i] ELSE 0, Len(v)) = Val(c.loads[b], a)
      [] c.k = "binpackingcap" ->
            \A b \in 1..Len(c.caps) :
                SumOver(LAMBDA i : IF v[i] = b - 1 THEN c.sizes[i] ELSE 0, Len(v)) <= c.caps[b]
      [] c.k = "circuit" -> TourFrom(v, 0, Len(v))
      [] c.k = "count" ->
            LET w == Val(c.val, a) IN CountOf(LAMBDA i : v[i] = w, Len(v)) = Val(c.y, a)
      [] c.k = "disjunctive2d" ->
            LET y == Vals(c.ys, a) w == Vals(c.ws, a) h == Vals(c.hs, a)
            IN  \A i, j \in 1..Len(v) : i < j =>
                    \/ v[i] + w[i] <= v[j] \/ v[j] + w[j] <= v[i]
                    \/ y[i] + h[i] <= y[j] \/ y[j] + h[j] <= y[i]
                    \/ ~c.strict /\ (w[i] = 0 \/ h[i] = 0 \/ w[j] = 0 \/ h[j] = 0)
      [] c.k = "gcc" ->
            /\ \A q \in 1..Len(c.vals) : CountOf(LAMBDA i : v[i] = c.vals[q], Len(v)) = Val(c.ys[q], a)
            /\ c.closed => \A i \in 1..Len(v) : v[i] \in Range(c.vals)
      [] c.k = "in" ->
            LET x == Val(c.x, a) IN (\E i \in 1..Len(v) : v[i] = x) \/ x \in Range(c.vals)
      [] c.k = "increasing" ->
            \A i \in 1..(Len(v) - 1) :
                LET p == IF c.desc THEN v[i + 1] ELSE v[i]
                    q == IF c.desc THEN v[i] ELSE v[i + 1]
                IN  IF c.strict THEN p < q ELSE p <= q
      [] c.k = "inverse" ->
            LET y == Vals(c.ys, a)
            IN  /\ \A i \in 1..Len(v) : /\ v[i] - c.y0 + 1 \in 1..Len(y)
                                        /\ y[v[i] - c.y0 + 1] = i + c.x0 - 1
                /\ \A j \in 1..Len(y) : /\ y[j] - c.x0 + 1 \in 1..Len(v)
                                        /\ v[y[j] - c.x0 + 1] = j + c.y0 - 1
      [] c.k = "knapsack" ->
            \A q \in 1..Len(c.co) : SumOver(LAMBDA i : c.co[q][i] * v[i], Len(v)) = Val(c.ts[q], a)
      [] c.k = "lex" ->
            LET y == Vals(c.ys, a)
                d == IF c.lt THEN LexCmp(y, v) ELSE LexCmp(v, y)
            IN  Reified(c.r, d > 0 \/ (c.oreq /\ d = 0), a)
      [] c.k = "lexsmart" ->
            LET y == Vals(c.ys, a)
                n == IF Len(v) < Len(y) THEN Len(v) ELSE Len(y)
            IN  \E i \in 1..n : v[i] > y[i] /\ \A j \in 1..(i - 1) : v[j] = y[j]
      [] c.k = "mdd" ->
            LET q == Layered(c.tr, 0, v, 1) IN q # -1 /\ q \in Range(c.accept)
      [] c.k = "mindistance" ->
            LET n == Len(v)
                inside == \A i \in 1..n : v[i] \in 0..(Len(c.d) - 1)
                D(i, j) == c.d[v[i] + 1][v[j] + 1]
            IN  /\ inside
                /\ LET S == {D(i, j) : i \in 1..n, j \in 1..n} IN TRUE
                /\ LET P == {p \in (1..n) \X (1..n) : p[1] < p[2]}
                   IN  /\ \E p \in P : D(p[1], p[2]) = Val(c.z, a)
                       /\ \A p \in P : D(p[1], p[2]) >= Val(c.z, a)
                       /\ c.req => \A p \in P : D(p[1], p[2]) >= c.r[p[1]][p[2]]
      [] c.k = "minmax" ->
            LET y == Val(c.y, a)
            IN  /\ \E i \in 1..Len(v) : v[i] = y
                /\ \A i \in 1..Len(v) : IF c.min THEN v[i] >= y ELSE v[i] <= y
      [] c.k = "nvalue" -> Cardinality(Range(v)) = Val(c.y, a)
      [] c.k = "regular" ->
            LET q == Accepts(c.tr, 0, v, 1) IN q # -1 /\ q \in Range(c.fin)
      [] c.k = "regex" ->
            RX!InLanguage(c.lang, [i \in 1..Len(v) |-> RX!Sym(v[i])])
      [] c.k = "seqprecede" ->
            \A i \in 1..Len(v) : v[i] >= 2 => \E j \in 1..(i - 1) : v[j] = v[i] - 1
      [] c.k = "smarttable" ->
            \E t \in 1..Len(c.ts) : \A e \in 1..Len(c.ts[t]) : EntryHolds(c.ts[t][e], a)
      [] c.k = "sort" ->
            LET y == Vals(c.ys, a)
            IN  /\ \A i \in 1..(Len(y) - 1) : y[i] <= y[i + 1]
                /\ \A w \in Range(v) \cup Range(y) :
                       CountOf(LAMBDA i : v[i] = w, Len(v)) = CountOf(LAMBDA i : y[i] = w, Len(y))
      [] c.k = "argsort" ->
            LET p == TLCEval([i \in 1..Len(c.ps) |-> Val(c.ps[i], a) - c.off + 1])
            IN  /\ \A i \in 1..Len(p) : p[i] \in 1..Len(v)
                /\ Distinct(p)
                /\ \A i \in 1..(Len(p) - 1) :
                       v[p[i]] < v[p[i + 1]] \/ (v[p[i]] = v[p[i + 1]] /\ p[i] < p[i + 1])
      [] c.k = "table" -> \E t \in 1..Len(c.ts) : RowMatches(c.ts[t], v)
      [] c.k = "negtable" -> ~\E t \in 1..Len(c.ts) : RowMatches(c.ts[t], v)
      [] c.k = "valueprecede" ->
            \A q \in 1..(Len(c.chain) - 1) : PrecededBy(v, c.chain[q], c.chain[q + 1])

Running(s, len, t) == s <= t /\ t < s + len

Holds1(c, a) ==
    CASE c.k = "abs" -> Val(c.y, a) = Abs(Val(c.x, a))
      [] c.k = "compare" ->
            LET x == IF c.gt THEN Val(c.y, a) ELSE Val(c.x, a)
                y == IF c.gt THEN Val(c.x, a) ELSE Val(c.y, a)
            IN  Reified(c.r, x < y \/ (c.oreq /\ x = y), a)
      [] c.k = "equals" ->
            Reified(c.r, IF c.ne THEN Val(c.x, a) # Val(c.y, a) ELSE Val(c.x, a) = Val(c.y, a), a)
      [] c.k = "cumulative" ->
            LET s == Vals(c.starts, a) len == Vals(c.lengths, a) h == Vals(c.heights, a)
                on == {i \in 1..Len(s) : Present(c, i, a) /\ len[i] > 0}
            IN  \A i \in on :      \* the profile is highest where a task starts
                    SumOver(LAMBDA j : IF j \in on /\ Running(s[j], len[j], s[i]) THEN h[j] ELSE 0, Len(s))
                        <= Val(c.cap, a)
      [] c.k = "difference" ->
            \A i \in 1..Len(c.edges) :
                LET e == c.edges[i] IN LitHolds(e.c, a) => Val(e.x, a) - Val(e.y, a) <= e.d
      [] c.k = "disjunctive" ->
            LET s == Vals(c.starts, a) len == Vals(c.lengths, a)
            IN  \A i, j \in 1..Len(s) : i < j /\ Present(c, i, a) /\ Present(c, j, a) =>
                    \/ s[i] + len[i] <= s[j] \/ s[j] + len[j] <= s[i]
                    \/ ~c.strict /\ (len[i] = 0 \/ len[j] = 0)
      [] c.k = "divide" ->
            Val(c.y, a) # 0 /\ Val(c.z, a) = TDiv(Val(c.x, a), Val(c.y, a))
      [] c.k = "modulus" ->
            Val(c.y, a) # 0 /\ Val(c.z, a) = TMod(Val(c.x, a), Val(c.y, a))
      [] c.k = "multiply" -> Val(c.x, a) * Val(c.y, a) = Val(c.z, a)
      [] c.k = "plus" -> Val(c.x, a) + Val(c.y, a) = Val(c.z, a)
      [] c.k = "minus" -> Val(c.x, a) - Val(c.y, a) = Val(c.z, a)
      [] c.k = "power" -> PowerHolds(Val(c.x, a), Val(c.y, a), Val(c.z, a))
      [] c.k = "element" ->
            LET i == Val(c.i, a) - c.off + 1
            IN  i \in 1..Len(c.arr) /\ Val(c.arr[i], a) = Val(c.y, a)
      [] c.k = "elementconst" ->
            LET i == Val(c.i, a) - c.off + 1
            IN  i \in 1..Len(c.arr) /\ c.arr[i] = Val(c.y, a)
      [] c.k = "element2d" ->
            LET i == Val(c.i, a) - c.o1 + 1 j == Val(c.j, a) - c.o2 + 1
            IN  i \in 1..Len(c.arr) /\ j \in 1..Len(c.arr[1]) /\ Val(c.arr[i][j], a) = Val(c.y, a)
      [] c.k = "element2dconst" ->
            LET i == Val(c.i, a) - c.o1 + 1 j == Val(c.j, a) - c.o2 + 1
            IN  i \in 1..Len(c.arr) /\ j \in 1..Len(c.arr[1]) /\ c.arr[i][j] = Val(c.y, a)
      [] c.k = "lineq" ->
            LET s == SumOver(LAMBDA i : c.sum[i][1] * Val(c.sum[i][2], a), Len(c.sum))
            IN  Reified(c.r, IF c.ne THEN s # c.value ELSE s = c.value, a)
      [] c.k = "linle" ->
            LET s == SumOver(LAMBDA i : c.sum[i][1] * Val(c.sum[i][2], a), Len(c.sum))
            IN  Reified(c.r, IF c.ge THEN s >= c.value ELSE s <= c.value, a)
      [] c.k = "and" -> (\A i \in 1..Len(c.ls) : LitHolds(c.ls[i], a)) <=> LitHolds(c.y, a)
      [] c.k = "or" -> (\E i \in 1..Len(c.ls) : LitHolds(c.ls[i], a)) <=> LitHolds(c.y, a)
      [] c.k = "nogoods" ->
            \A n \in 1..Len(c.ns) : \E i \in 1..Len(c.ns[n]) : ~LitHolds(c.ns[n][i], a)
      [] c.k = "parity" -> CountOf(LAMBDA i : LitHolds(c.ls[i], a), Len(c.ls)) % 2 = 1
      [] OTHER -> Holds2(c, a, Vals(c.xs, a))

-----------------------------------------------------------------------------
(* A regular expression is parsed once, over the contiguous alphabet from    *)
(* the least to the greatest value of its variables.                         *)

TermValues(t, doms) ==
    IF t[1] = 0 THEN {t[3]} ELSE {t[2] * d + t[3] : d \in Range(doms[t[1]])}

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y

Prepare(c, doms) ==
    IF c.k # "regex" THEN c
    ELSE LET S == UNION {TermValues(c.xs[i], doms) : i \in 1..Len(c.xs)}
             p == RX!Parse(c.re, {RX!Sym(v) : v \in Min(S)..Max(S)})
         IN  c @@ ("lang" :> p.e)

PrepareAll(cons, doms) == TLCEval([i \in 1..Len(cons) |-> Prepare(cons[i], doms)])

Sat(cons, a) == \A i \in 1..Len(cons) : Holds1(cons[i], a)

RECURSIVE Assignments(_, _)
Assignments(doms, n) ==
    IF n = 0 THEN {<<>>}
    ELSE {Append(p, d) : p \in Assignments(doms, n - 1), d \in Range(doms[n])}

Solutions(doms, cons) == {a \in Assignments(doms, Len(doms)) : Sat(cons, a)}
=============================================================================
