----------------------------- MODULE ReaderTrace -----------------------------
(* Validates recorded readings of data and instance files: what each file    *)
(* says, from its characters alone, against what the reader returned, and    *)
(* that the reader raised an error exactly when the file is malformed.       *)
EXTENDS Dzn, TraceBase, FiniteSets

\* Whether the outcome is right: accepted exactly when it should be, or
\* accepted against the specification for a reason listed as a known finding.
KnownReasons ==
    {r \in {<<"NEAR_NUMBER", "near number">>, <<"DISP_TOKEN", "not a decimal">>, <<"DISP_REQUIREMENT", "requirement positions">>,
            <<"SCH_TOKEN", "not a number">>, <<"SCH_TARGET", "successor">>, <<"SCH_DEMAND", "negative demand">>,
            <<"SIZE_WRAP", "size">>, <<"SUCCESSOR_WRAP", "successor size">>} :
        ("KNOWN_C22_" \o r[1]) \in DOMAIN IOEnv}
Accepted(got, want) ==
    IF got /\ ~ want.ok /\ \E r \in KnownReasons : r[2] = want.why
    THEN PrintT(<<"@@KNOWN", "C22_" \o (CHOOSE r \in KnownReasons : r[2] = want.why)[1]>>)
    ELSE Check("accepted", got, want.ok)

VARIABLE text      \* the file being read
vars == <<text, l>>
Init == text = << >> /\ l = 1

File == IsEvent("file") /\ text' = Ev.text

\* Opening: only a duplicate definition is an error.
Open == IsEvent("open") /\ Check("opens", Ev.ok, Readable(text)) /\ UNCHANGED text
Contains == IsEvent("contains") /\ Check("defined", Ev.r, Defines(text, Ev.name)) /\ UNCHANGED text
Get ==
    /\ IsEvent("get")
    /\ LET want == Read(text, Ev.name, Ev.how)
       IN  /\ Accepted(Ev.ok, want)
           /\ want.ok => Check("value", Ev.v, want.v)
    /\ UNCHANGED text

-----------------------------------------------------------------------------
\* Names of the fields of instance files.
S(t) == t      \* names are recorded as codes by the driver, once per file
Num(b) == IF b[1] = 0 THEN 0 ELSE b[1] * (LET m == b[2] IN (IF Len(m) >= 1 THEN m[1] ELSE 0) + (IF Len(m) >= 2 THEN m[2] * 10000 ELSE 0))
SmallNum(b) == Len(b[2]) <= 2
AtLeast(b, n) == Leq(FromInt(n), b)

NotNegative(b) == b[1] >= 0
\* Why one of several readings failed.
WhyNot(rs) == LET bad == {i \in 1..Len(rs) : ~ rs[i].ok} IN
              IF \A i \in bad : rs[i].why = "near number" THEN "near number" ELSE "malformed"

\* Project scheduling data.
RcpspDzn(t, k) ==
    LET nt == Read(t, k.n_tasks, "integer")
        nr == Read(t, k.n_res, "integer")
        rc == Read(t, k.rc, "integers")
        d == Read(t, k.d, "integers")
        rr == Read(t, k.rr, "matrix")
        suc == Read(t, k.suc, "sets")
        n == Num(nt.v)
        r == Num(nr.v)
    IN  IF ~ Readable(t) THEN Bad
        ELSE IF ~ (nt.ok /\ nr.ok /\ rc.ok /\ d.ok /\ rr.ok /\ suc.ok) THEN Reject(WhyNot(<<nt, nr, rc, d, rr, suc>>))
        ELSE IF ~ SmallNum(nr.v) \/ r < 0 THEN Bad
        ELSE IF ~ SmallNum(nt.v) THEN Reject(IF NotNegative(nt.v) THEN "size" ELSE "malformed")
        ELSE IF n < 1 THEN Bad
        ELSE IF Len(rc.v) # r \/ Len(d.v) # n \/ (\E i \in 1..Len(d.v) : ~ AtLeast(d.v[i], 1)) THEN Bad
        ELSE IF Len(rr.v) # r \/ (\E i \in 1..Len(rr.v) : Len(rr.v[i]) # n \/ \E j \in 1..Len(rr.v[i]) : ~ AtLeast(rr.v[i][j], 0)) THEN Bad
        ELSE IF Len(suc.v) # n
                \/ (\E i \in 1..Len(suc.v) : \E j \in 1..Len(suc.v[i]) :
                        /\ SmallNum(suc.v[i][j])
                        /\ Num(suc.v[i][j]) <= i \/ Num(suc.v[i][j]) > n) THEN Bad
        ELSE IF \E i \in 1..Len(suc.v) : \E j \in 1..Len(suc.v[i]) : ~ SmallNum(suc.v[i][j]) THEN Reject("successor size")
        ELSE Good([n |-> n, d |-> d.v, rc |-> rc.v, rr |-> rr.v,
                   prec |-> {<<i - 1, Num(suc.v[i][j]) - 1>> : <<i, j>> \in {q \in (1..n) \X (1..n) : q[2] <= Len(suc.v[q[1]])}}])
\* (a successor list longer than n repeats entries: compared as sets)
Rcpsp ==
    /\ IsEvent("rcpsp")
    /\ LET want == RcpspDzn(text, Ev.keys)
       IN  /\ Accepted(Ev.ok, want)
           /\ want.ok => /\ Check("tasks", Ev.n, want.v.n)
                         /\ Check("durations", Ev.d, want.v.d)
                         /\ Check("capacities", Ev.rc, want.v.rc)
                         /\ Check("demands", Ev.rr, want.v.rr)
                         /\ Check("precedences", {Ev.prec[i] : i \in 1..Len(Ev.prec)}, want.v.prec)
                         /\ Check("nothing else", <<Ev.lags, Ev.machine, Ev.source>>, << << >>, << >>, -1>>)
    /\ UNCHANGED text

\* Layout tables.
TableDzn(t, k) ==
    LET pw == Read(t, k.pixelwidth, "integer")
        mc == Read(t, k.maxconfig, "integer")
        ro == Read(t, k.rows, "integer")
        co == Read(t, k.cols, "integer")
        w == Read(t, k.width, "integers")
        h == Read(t, k.height, "integers")
        m == Num(mc.v)
        rows == Num(ro.v)
        cols == Num(co.v)
        shape(f) == [x \in 1..rows |-> [y \in 1..cols |-> [z \in 1..m |-> f[((x - 1) * cols + (y - 1)) * m + z]]]]
    IN  IF ~ Readable(t) THEN Bad
        ELSE IF ~ (pw.ok /\ mc.ok /\ ro.ok /\ co.ok /\ w.ok /\ h.ok) THEN Reject(WhyNot(<<pw, mc, ro, co, w, h>>))
        ELSE IF ~ (SmallNum(mc.v) /\ SmallNum(ro.v) /\ SmallNum(co.v)) THEN Reject("size")
        ELSE IF m < 1 \/ rows < 1 \/ cols < 1 THEN Bad
        ELSE IF m > 1000 \/ rows > 1000 \/ cols > 1000 THEN Bad    \* more entries than any file here has
        ELSE IF Len(w.v) # rows * cols * m \/ Len(h.v) # rows * cols * m THEN Bad
        ELSE Good([pw |-> pw.v, m |-> m, rows |-> rows, cols |-> cols, w |-> shape(w.v), h |-> shape(h.v)])

Configs(x, i, j) ==
    LET ls == SelectSeq([z \in 1..x.m |-> z], LAMBDA z : NotNegative(x.w[i][j][z]) /\ NotNegative(x.h[i][j][z]))
    IN  [q \in 1..Len(ls) |-> <<ls[q], x.w[i][j][ls[q]], x.h[i][j][ls[q]]>>]
BestOf(vs, better(_, _)) == CHOOSE v \in vs : \A u \in vs : better(v, u)
Extents(x) ==
    LET cells == (1..x.rows) \X (1..x.cols)
        cf == TLCEval([q \in cells |-> Configs(x, q[1], q[2])])
        ws == UNION {{cf[q][i][2] : i \in 1..Len(cf[q])} : q \in cells}
        hs == UNION {{cf[q][i][3] : i \in 1..Len(cf[q])} : q \in cells}
    IN  IF \E q \in cells : cf[q] = << >> THEN Bad
        ELSE Good(<<BestOf(ws, Leq), BestOf(ws, LAMBDA a, b : Leq(b, a)), BestOf(hs, Leq), BestOf(hs, LAMBDA a, b : Leq(b, a))>>)
Table ==
    /\ IsEvent("table")
    /\ LET want == TableDzn(text, Ev.keys)
       IN  /\ Accepted(Ev.ok, want)
           /\ want.ok => /\ Check("sizes", Ev.sizes, <<want.v.rows, want.v.cols, want.v.m>>)
                         /\ Check("pixel width", Ev.pw, want.v.pw)
                         /\ Check("widths", Ev.w, want.v.w)
                         /\ Check("heights", Ev.h, want.v.h)
                         /\ Check("legal configurations", Ev.legal, [x \in 1..want.v.rows |-> [y \in 1..want.v.cols |-> Configs(want.v, x, y)]])
                         /\ LET e == Extents(want.v)
                            IN  Check("has extents", Ev.eok, e.ok) /\ (e.ok => Check("extents", Ev.ext, e.v))
    /\ UNCHANGED text

-----------------------------------------------------------------------------
\* ProGen/max: a header line, then numbers; brackets are white space.
Lines(t) == Split(t, {10})
RECURSIVE SchArcs(_, _, _, _, _)
\* From token p, activity i of n: the arcs, and the position after them.
SchArcs(w, p, i, n, acc) ==
    IF i = n THEN [ok |-> TRUE, arcs |-> acc, p |-> p]
    ELSE IF p + 2 > Len(w) \/ w[p] # FromInt(i) \/ w[p + 1] # One \/ ~ SmallNum(w[p + 2]) THEN [ok |-> FALSE, arcs |-> << >>, p |-> 0]
    ELSE LET k == Num(w[p + 2])
         IN  IF k < 0 \/ k > n \/ p + 2 + 2 * k > Len(w) THEN [ok |-> FALSE, arcs |-> << >>, p |-> 0]
             ELSE SchArcs(w, p + 3 + 2 * k, i + 1, n,
                          acc \o [q \in 1..k |-> <<i, w[p + 2 + q], w[p + 2 + k + q]>>])
Sch(t) ==
    LET ls == Lines(t)
        at == LET z == SelectSeq([i \in 1..Len(ls) |-> IF Blank(ls[i]) THEN 0 ELSE i], LAMBDA x : x # 0) IN IF z = << >> THEN 0 ELSE z[1]
        hw == IF at = 0 THEN << >> ELSE Tokens(ls[at], White)
        hn == TLCEval([i \in 1..Len(hw) |-> IF IsNumber(hw[i]) THEN NumberOf(hw[i]) ELSE BZero])
        RECURSIVE Rest(_, _)
        Rest(i, acc) == IF i > Len(ls) THEN acc ELSE Rest(i + 1, acc \o ls[i] \o << 10 >>)
        ws == TLCEval(Tokens(Rest(at + 1, << >>), White \cup {LBracket, RBracket}))
        w == TLCEval([i \in 1..Len(ws) |-> IF IsNumber(ws[i]) THEN NumberOf(ws[i]) ELSE << 2, << >> >>])
        n == Num(hn[1]) + 2
        g == Num(hn[2])
        a == TLCEval(SchArcs(w, 1, 0, n, << >>))
        need == a.p + n * (3 + g) + g - 1
        base(i) == a.p + i * (3 + g)
    IN  IF at = 0 \/ Len(hw) < 2 \/ Len(hw) > 4 \/ (\E i \in 1..2 : ~ IsNumber(hw[i])) THEN Bad
        ELSE IF \E i \in 3..Len(hw) : ~ IsNumber(hw[i]) THEN Reject("not a number")
        ELSE IF (Len(hw) >= 3 /\ hn[3] # BZero) \/ (Len(hw) >= 4 /\ hn[4] # BZero) THEN Bad
        ELSE IF ~ SmallNum(hn[1]) \/ ~ SmallNum(hn[2]) \/ n < 3 \/ n > 1000002 \/ g < 0 \/ g > 1000000 THEN Bad
        ELSE IF ~ a.ok \/ need > Len(w) THEN Reject(IF \E i \in 1..Len(w) : w[i][1] = 2 THEN "not a number" ELSE "malformed")
        ELSE IF \E i \in 1..need : w[i][1] = 2 THEN Reject("not a number")
        ELSE IF \E i \in 0..(n - 1) : w[base(i)] # FromInt(i) \/ w[base(i) + 1] # One THEN Bad
        ELSE IF \E i \in 1..Len(a.arcs) : SmallNum(a.arcs[i][2]) /\ (~ NotNegative(a.arcs[i][2]) \/ ~ Leq(a.arcs[i][2], FromInt(n - 1))) THEN Bad
        ELSE IF \E i \in 0..(n - 1) : ~ NotNegative(w[base(i) + 2]) THEN Bad
        ELSE IF \E q \in 0..(g - 1) : ~ NotNegative(w[base(n) + q]) THEN Bad
        ELSE IF \E i \in 1..Len(a.arcs) : ~ SmallNum(a.arcs[i][2]) THEN Reject("successor")
        ELSE IF \E i \in 0..(n - 1) : \E q \in 3..(2 + g) : ~ NotNegative(w[base(i) + q]) THEN Reject("negative demand")
        ELSE Good([n |-> n,
                   d |-> [i \in 1..n |-> w[base(i - 1) + 2]],
                   rc |-> [q \in 1..g |-> w[base(n) + q - 1]],
                   rr |-> [q \in 1..g |-> [i \in 1..n |-> w[base(i - 1) + 2 + q]]],
                   lags |-> [i \in 1..Len(a.arcs) |-> <<FromInt(a.arcs[i][1]), a.arcs[i][2], a.arcs[i][3]>>]])
SchRead ==
    /\ IsEvent("sch")
    /\ LET want == Sch(text)
       IN  /\ Accepted(Ev.ok, want)
           /\ want.ok => /\ Check("tasks", Ev.n, want.v.n)
                         /\ Check("durations", Ev.d, want.v.d)
                         /\ Check("capacities", Ev.rc, want.v.rc)
                         /\ Check("demands", Ev.rr, want.v.rr)
                         /\ Check("lags", Ev.lags, want.v.lags)
                         /\ Check("nothing else", <<Ev.prec, Ev.machine, Ev.source>>, << << >>, << >>, 0>>)
    /\ UNCHANGED text

-----------------------------------------------------------------------------
\* p-dispersion: a header line, then numbers that may have a fraction.
RoundText(w) ==      \* nearest integer, halves away from zero
    LET neg == w[1] = 45
        d == IF w[1] \in {43, 45} THEN SubSeq(w, 2, Len(w)) ELSE w
        dot == First(d, {46})
        whole == IF dot = 0 THEN d ELSE SubSeq(d, 1, dot - 1)
        up == dot # 0 /\ dot < Len(d) /\ d[dot + 1] >= 53
        m == LET b == Digits(whole, 1, BZero) IN IF up THEN Add(b, One) ELSE b
    IN  IF neg THEN Neg(m) ELSE m
IsDecimal(w) ==
    LET d == IF w # << >> /\ w[1] \in {43, 45} THEN SubSeq(w, 2, Len(w)) ELSE w
        dots == Where(d, {46})
    IN  /\ Len(dots) <= 1
        /\ Len(d) > Len(dots)
        /\ \A i \in 1..Len(d) : d[i] \in Digit \cup {46}

Pairs3(w, from, k) == [i \in 1..k |-> <<w[from + 3 * i - 2], w[from + 3 * i - 1], w[from + 3 * i]>>]
UnorderedOf(ts) == {{ts[i][1], ts[i][2]} : i \in 1..Len(ts)}
RECURSIVE Ordered(_)
Ordered(ids) == IF ids = {} THEN << >> ELSE LET m == BestOf(ids, Leq) IN << m >> \o Ordered(ids \ {m})

Disp(t) ==
    LET ls == Lines(t)
        at == LET z == SelectSeq([i \in 1..Len(ls) |-> IF Blank(ls[i]) THEN 0 ELSE i], LAMBDA x : x # 0) IN IF z = << >> THEN 0 ELSE z[1]
        hw == IF at = 0 THEN << >> ELSE Tokens(ls[at], White)
        RECURSIVE Rest(_, _)
        Rest(i, acc) == IF i > Len(ls) THEN acc ELSE Rest(i + 1, acc \o ls[i] \o << 10 >>)
        ws == TLCEval(Tokens(Rest(at + 1, << >>), White))
        w == TLCEval([i \in 1..Len(ws) |-> RoundText(ws[i])])
        nb == NumberOf(hw[1])
        n == Num(nb)
        np == (n * (n - 1)) \div 2
        second == IF Len(hw) >= 2 /\ IsNumber(hw[2]) /\ SmallNum(NumberOf(hw[2])) THEN Num(NumberOf(hw[2])) ELSE -1
        ds == TLCEval(Pairs3(w, 0, np))
        ids == {ds[i][1] : i \in 1..np} \cup {ds[i][2] : i \in 1..np}
        order == TLCEval(Ordered(ids))
        dist == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN BZero ELSE ds[CHOOSE k \in 1..np : {ds[k][1], ds[k][2]} = {order[i], order[j]}][3]]]
        rp == (second * (second - 1)) \div 2
        hasreq == second >= 2 /\ Len(w) - 3 * np = 3 * rp
        rs == TLCEval(Pairs3(w, 3 * np, rp))
        pos == {FromInt(i) : i \in 0..(second - 1)}
    IN  IF at = 0 \/ Len(hw) < 1 \/ ~ IsNumber(hw[1]) \/ ~ SmallNum(nb) \/ n < 1 \/ n > 1000 THEN Bad
        ELSE IF \E i \in 1..Len(ws) : ~ IsDecimal(ws[i]) THEN Reject("not a decimal")
        ELSE IF Len(w) < 3 * np THEN Bad
        ELSE IF (\E i \in 1..np : ds[i][1] = ds[i][2]) \/ Cardinality(ids) # n \/ Cardinality(UnorderedOf(ds)) # np THEN Bad
        ELSE IF hasreq /\ \E i \in 1..rp : rs[i][1] \notin pos \/ rs[i][2] \notin pos THEN Bad
        ELSE IF hasreq /\ ((\E i \in 1..rp : rs[i][1] = rs[i][2]) \/ Cardinality(UnorderedOf(rs)) # rp) THEN Reject("requirement positions")
        ELSE Good([n |-> n, dist |-> dist, p |-> IF hasreq THEN second ELSE -1,
                   reqs |-> IF hasreq THEN [i \in 1..second |-> [j \in 1..second |-> IF i = j THEN Neg(One)
                                                ELSE rs[CHOOSE k \in 1..rp : {rs[k][1], rs[k][2]} = {FromInt(i - 1), FromInt(j - 1)}][3]]]
                            ELSE << >>])
DispRead ==
    /\ IsEvent("disp")
    /\ LET want == Disp(text)
       IN  /\ Accepted(Ev.ok, want)
           /\ want.ok => /\ Check("sites", Ev.n, want.v.n)
                         /\ Check("distances", Ev.dist, want.v.dist)
                         /\ Check("positions", Ev.p, want.v.p)
                         /\ Check("requirements", Ev.reqs, want.v.reqs)
                         /\ Check("largest", Ev.largest, BestOf({BZero} \cup UNION {{want.v.dist[i][j] : j \in 1..want.v.n} : i \in 1..want.v.n}, LAMBDA a, b : Leq(b, a)))
    /\ UNCHANGED text

Next == File \/ Open \/ Contains \/ Get \/ Rcpsp \/ Table \/ SchRead \/ DispRead
Spec == Init /\ [][Next]_vars
=============================================================================
