---------------------------- MODULE ScheduleTrace ----------------------------
(* Validates what the schedule helpers said of recorded instances, and the   *)
(* instances the random generators made from recorded options.               *)
EXTENDS Schedules, TraceBase

Init == l = 1
Begin == IsEvent("begin")

Bounds ==
    /\ IsEvent("bounds")
    /\ \E i \in {Ev.inst} :
        /\ Check("earliest starts", Ev.est, Earliest(i))
        /\ Check("tails", Ev.tails, Tails(i))
        /\ Check("critical path", Ev.critical, Critical(i))
        /\ Check("horizon", Ev.horizon, Horizon(i))
        /\ Check("backward", Ev.backward, Backward(i))
        /\ Check("serial schedule", Ev.serial, Serial(i, << >>))
        /\ Check("makespan", Ev.makespan, Ends(i, Ev.serial))
        /\ Check("serial schedule feasible", Ev.feasible, Feasible(i, Ev.serial))
        \* what the horizon rests on, when no lag can contradict it
        /\ Holds("always feasible without lags", i.lags # << >> \/ i.source # -1 \/ Ev.feasible)

Judged == IsEvent("feasible") /\ Check("feasible", Ev.r, Feasible(Ev.inst, Ev.starts))

-----------------------------------------------------------------------------
GoodOptions == Ev.n >= 1 /\ Ev.resources >= 0 /\ Ev.longest >= 1 /\ Ev.hungriest >= 0 /\ Ev.hungriest <= Ev.capacity

\* Pairs that may carry a maximum lag.
Candidates(i) == {q \in Tasks(i) \X Tasks(i) : q[1] < q[2] /\ q[2] <= q[1] + Ev.span /\ Path(i, q[1], q[2]) # Unreachable}
LagPairs(i) == {<<i.lags[k][2] + 1, i.lags[k][1] + 1>> : k \in 1..Len(i.lags)}
\* How far beyond its path each lag lets the pair spread.
SlackOf(i, k) == - i.lags[k][3] - Path(i, i.lags[k][2] + 1, i.lags[k][1] + 1)

Generated(i) ==
    LET w == Before(i)
        near == {q \in Tasks(i) \X Tasks(i) : q[1] < q[2] /\ q[2] - q[1] <= Ev.window}
        can == Candidates(i)
        got == LagPairs(i)
        tight == {k \in 1..Len(i.lags) : SlackOf(i, k) = -1}
    IN  /\ Check("tasks", <<i.n, Len(i.d), Len(i.cap), Len(i.dem)>>, <<Ev.n, Ev.n, Ev.resources, Ev.resources>>)
        /\ Holds("durations", \A t \in 1..Ev.n : i.d[t] \in 1..Ev.longest)
        /\ Holds("capacities", \A r \in 1..Ev.resources : i.cap[r] = Ev.capacity)
        /\ Holds("demands", \A r \in 1..Ev.resources : Len(i.dem[r]) = Ev.n /\ \A t \in 1..Ev.n : i.dem[r][t] \in 0..Ev.hungriest)
        /\ Holds("precedences distinct", Cardinality(w) = Len(i.prec))
        /\ Holds("precedences near", w \subseteq near)
        /\ Holds("all precedences", Ev.density = 4 => w = near)
        /\ Holds("no precedences", Ev.density = 0 => w = {})
        /\ Holds("machine ascending", \A k \in 1..(Len(i.machine) - 1) : i.machine[k] < i.machine[k + 1])
        /\ Holds("machine tasks", OnMachine(i) \subseteq Tasks(i))
        /\ Holds("all on machine", Ev.fraction = 4 => OnMachine(i) = Tasks(i))
        /\ Holds("none on machine", Ev.fraction = 0 => OnMachine(i) = {})
        /\ Check("source", i.source, -1)
        /\ Holds("lags distinct", Cardinality(got) = Len(i.lags))
        /\ Holds("lags over paths", got \subseteq can)
        /\ Holds("all lags", Ev.lagdensity = 4 => got = can)
        /\ Holds("lags asked for", Ev.lagdensity = 0 => Len(i.lags) = (IF Ev.infeasible THEN 1 ELSE 0))
        /\ Holds("slack", \A k \in 1..Len(i.lags) : SlackOf(i, k) \in {-1, Ev.slack})
        /\ Check("tightened", Cardinality(tight), IF Ev.infeasible THEN 1 ELSE 0)
        /\ Holds("the longest tightened", \A k \in tight : \A q \in got : Path(i, q[1], q[2]) <= Path(i, i.lags[k][2] + 1, i.lags[k][1] + 1))
        /\ Holds("same again", Ev.again)
        /\ Holds("lags change nothing else", Ev.plain)

Generate ==
    /\ IsEvent("generate")
    /\ IF Ev.ok THEN Holds("options", GoodOptions) /\ \E i \in {Ev.inst} : Generated(i)
       \* refused: bad options, or nothing to contradict in a way that depends
       \* on the precedences drawn, which can only be sure when all or none are
       ELSE Holds("refused", \/ ~ GoodOptions
                             \/ Ev.infeasible /\ (Ev.density < 4 \/ Ev.n = 1))

-----------------------------------------------------------------------------
\* Euclidean distance rounded to the nearest; squares here have no exact half.
Nearest(d, sq) == d >= 0 /\ 4 * sq <= (2 * d + 1) * (2 * d + 1) /\ (d = 0 \/ (2 * d - 1) * (2 * d - 1) <= 4 * sq)
Square(x) == x * x

Sites ==
    /\ IsEvent("sites")
    /\ Check("accepted", Ev.ok, IF Ev.how = "grid" THEN Ev.w >= 1 /\ Ev.h >= 1 ELSE Ev.w >= 1)
    /\ Ev.ok =>
        LET c == Ev.coords
            d == Ev.distance
            n == Ev.n
        IN  /\ Check("sites", <<n, Len(c), Len(d)>>, LET w == IF Ev.how = "grid" THEN Ev.w * Ev.h ELSE Ev.w IN <<w, w, w>>)
            /\ Holds("where", \A k \in 1..n : IF Ev.how = "grid" THEN c[k][1] \in 0..(Ev.w - 1) /\ c[k][2] \in 0..(Ev.h - 1)
                                              ELSE c[k][1] \in 0..Ev.h /\ c[k][2] \in 0..Ev.h)
            /\ Holds("every grid point", Ev.how = "grid" => Cardinality({c[k] : k \in 1..n}) = n)
            /\ \A a \in 1..n : Check("row", Len(d[a]), n)
            /\ \A a, b \in 1..n : IF Nearest(d[a][b], Square(c[a][1] - c[b][1]) + Square(c[a][2] - c[b][2])) THEN TRUE
                                  ELSE Check("distance", <<c[a], c[b]>>, d[a][b])
            /\ Check("largest", Ev.largest, Most({0} \cup {d[a][b] : <<a, b>> \in (1..n) \X (1..n)}))
            /\ Holds("nothing else", ~ Ev.extra)
            /\ Holds("same again", Ev.again)

-----------------------------------------------------------------------------
\* How many configurations a cell has: its entries before the padding.
Count(cell) == Cardinality({k \in 1..Len(cell) : cell[k] >= 0})
CellOk(cell, k, size) == /\ Len(cell) = Ev.most
                         /\ \A j \in 1..Ev.most : IF j <= k THEN cell[j] \in 1..size ELSE cell[j] = -1
Layout ==
    /\ IsEvent("layout")
    /\ Check("accepted", Ev.ok, Ev.rows >= 1 /\ Ev.cols >= 1 /\ Ev.most >= 1 /\ Ev.size >= 1)
    /\ Ev.ok =>
        LET cells == {<<r, c>> : r \in 1..Ev.rows, c \in 1..Ev.cols}
            w == Ev.width
            h == Ev.height
            all(t) == UNION {{t[q[1]][q[2]][k] : k \in 1..Count(t[q[1]][q[2]])} : q \in cells}
            least(S) == CHOOSE x \in S : \A y \in S : x <= y
        IN  /\ Check("sizes", Ev.got, <<Ev.rows, Ev.cols, Ev.most, IF Ev.asked > 0 THEN Ev.asked ELSE Ev.cols * Ev.size>>)
            /\ Check("rows", <<Len(w), Len(h)>>, <<Ev.rows, Ev.rows>>)
            /\ \A r \in 1..Ev.rows : Check("columns", <<Len(w[r]), Len(h[r])>>, <<Ev.cols, Ev.cols>>)
            /\ \A q \in cells :
                  LET k == Count(w[q[1]][q[2]])
                  IN  /\ Holds("configurations", k >= 1)
                      /\ Holds("widths", CellOk(w[q[1]][q[2]], k, Ev.size))
                      /\ Holds("heights", CellOk(h[q[1]][q[2]], k, Ev.size))
                      /\ Check("legal", Ev.legal[(q[1] - 1) * Ev.cols + q[2]], k)
            /\ Check("extents", Ev.extents, <<least(all(w)), Most(all(w)), least(all(h)), Most(all(h))>>)
            /\ Holds("same again", Ev.again)

Next == Begin \/ Bounds \/ Judged \/ Generate \/ Sites \/ Layout
Spec == Init /\ [][Next]_l
=============================================================================
