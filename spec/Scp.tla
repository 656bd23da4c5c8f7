--------------------------------- MODULE Scp ---------------------------------
(* The textual problem format, version 1: which s-expressions are problems,    *)
(* and what each of them means as a model of Semantics.tla.  Writing may use   *)
(* views (x + n), (-x + n) where reading wants names or integers, and automata *)
(* with several edges on a symbol where reading wants one.                     *)
EXTENDS Semantics

SX == INSTANCE SExpr
NM == INSTANCE Names

-----------------------------------------------------------------------------
(* Terms: atoms are <<"a", text, characters>>, lists <<"l", children>>.        *)

Printable == "!\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CharAt == [c \in 33..126 |-> SubSeq(Printable, c - 32, c - 32)]
RECURSIVE TextFrom(_, _)
TextFrom(s, i) == IF i > Len(s) THEN "" ELSE (IF s[i] \in 33..126 THEN CharAt[s[i]] ELSE "?") \o TextFrom(s, i + 1)
Text(s) == TextFrom(s, 1)

RECURSIVE Named(_)
Named(t) == IF t[1] = "a" THEN <<"a", Text(t[2]), t[2]>> ELSE <<"l", [i \in 1..Len(t[2]) |-> Named(t[2][i])]>>

IsA(e) == e[1] = "a"
IsL(e) == e[1] = "l"
Kids(e) == e[2]
Size(e) == Len(e[2])

\* integers of at most 64 bits; IntOf only where they are small
DigitsOnly(s) == s # <<>> /\ \A i \in 1..Len(s) : NM!DigitC(s[i])
Unsigned(s) == IF s # <<>> /\ s[1] = 45 THEN Tail(s) ELSE s
RECURSIVE Stripped(_)
Stripped(s) == IF Len(s) > 1 /\ s[1] = 48 THEN Stripped(Tail(s)) ELSE s
MaxDigits == <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55>>
MinDigits == [MaxDigits EXCEPT ![19] = 56]
LexLe(s, t) ==
    \/ s = t
    \/ \E i \in 1..Len(s) : s[i] < t[i] /\ \A j \in 1..(i - 1) : s[j] = t[j]
FitsIn(s, m) == Len(s) < Len(m) \/ (Len(s) = Len(m) /\ LexLe(s, m))
IsIntText(s) ==
    LET u == Unsigned(s)
    IN  DigitsOnly(u) /\ FitsIn(Stripped(u), IF s[1] = 45 THEN MinDigits ELSE MaxDigits)
RECURSIVE Whole(_, _)
Whole(s, i) == IF i = 0 THEN 0 ELSE 10 * Whole(s, i - 1) + (s[i] - 48)
SmallInt(e) == Len(Stripped(Unsigned(e[3]))) <= 8
\* integers too large for the specification stand for one large value
IntOf(e) ==
    LET u == Stripped(Unsigned(e[3]))
        m == IF Len(u) <= 8 THEN Whole(u, Len(u)) ELSE 1000000000
    IN  IF e[3][1] = 45 THEN -m ELSE m

IsInt(e) == IsA(e) /\ IsIntText(e[3])
IsInts(e) == IsL(e) /\ \A i \in 1..Size(e) : IsInt(Kids(e)[i])
IntsOf(e) == [i \in 1..Size(e) |-> IntOf(Kids(e)[i])]
IsGrid(e) == IsL(e) /\ \A i \in 1..Size(e) : IsInts(Kids(e)[i])
GridOf(e) == [i \in 1..Size(e) |-> IntsOf(Kids(e)[i])]

RECURSIVE AllSmall(_)
AllSmall(e) == IF IsA(e) THEN (IsInt(e) => SmallInt(e)) ELSE \A i \in 1..Size(e) : AllSmall(Kids(e)[i])

\* _N, the form kept for things without a name
IsAuto(e) == IsA(e) /\ Len(e[3]) >= 2 /\ e[3][1] = 95 /\ DigitsOnly(Tail(e[3]))
AutoNumber(e) == LET s == Stripped(Tail(e[3])) IN IF Len(s) > 8 THEN 1000000000 ELSE Whole(s, Len(s))

-----------------------------------------------------------------------------
(* Operands.  vs maps declared names to positions; views says whether views    *)
(* are part of the language (in what is written) or not (in what is read).     *)

IsView(e, vs) ==
    /\ IsL(e) /\ Size(e) = 3 /\ IsA(Kids(e)[1]) /\ Kids(e)[2] = <<"a", "+", <<43>>>> /\ IsInt(Kids(e)[3])
    /\ \E neg \in BOOLEAN : \E n \in DOMAIN vs : Kids(e)[1][2] = (IF neg THEN "-" \o n ELSE n)
IsVar(e, vs, views) == IF IsA(e) THEN e[2] \in DOMAIN vs \/ IsInt(e) ELSE views /\ IsView(e, vs)
VarOf(e, vs) ==
    IF IsL(e)
    THEN LET s == Kids(e)[1][2] o == IntOf(Kids(e)[3])
         IN  IF s \in DOMAIN vs THEN <<vs[s], 1, o>>
             ELSE <<vs[CHOOSE n \in DOMAIN vs : s = "-" \o n], -1, o>>
    ELSE IF e[2] \in DOMAIN vs THEN <<vs[e[2]], 1, 0>> ELSE <<0, 1, IntOf(e)>>

IsVars(e, vs, views) == IsL(e) /\ \A i \in 1..Size(e) : IsVar(Kids(e)[i], vs, views)
VarsOf(e, vs) == [i \in 1..Size(e) |-> VarOf(Kids(e)[i], vs)]
IsVarGrid(e, vs, views) == IsL(e) /\ \A i \in 1..Size(e) : IsVars(Kids(e)[i], vs, views)
VarGridOf(e, vs) == [i \in 1..Size(e) |-> VarsOf(Kids(e)[i], vs)]

CondOp == ("=" :> "eq") @@ ("!=" :> "ne") @@ (">=" :> "ge") @@ ("<" :> "lt")
IsCond(e, vs, views) ==
    /\ IsL(e) /\ Size(e) = 3
    /\ IsVar(Kids(e)[1], vs, views)
    /\ IsA(Kids(e)[2]) /\ Kids(e)[2][2] \in DOMAIN CondOp
    /\ IsInt(Kids(e)[3])
CondOf(e, vs) == [op |-> CondOp[Kids(e)[2][2]], t |-> VarOf(Kids(e)[1], vs), k |-> IntOf(Kids(e)[3])]

TrueLit == [op |-> "true"]
IsLit(e, vs, views) == IF IsA(e) THEN e[2] \in {"0", "1"} ELSE IsCond(e, vs, views)
LitOf(e, vs) == IF IsA(e) THEN [op |-> IF e[2] = "1" THEN "true" ELSE "false"] ELSE CondOf(e, vs)
IsLits(e, vs, views) == IsL(e) /\ \A i \in 1..Size(e) : IsLit(Kids(e)[i], vs, views)
LitsOf(e, vs) == [i \in 1..Size(e) |-> LitOf(Kids(e)[i], vs)]

\* a literal true or false whatever the variables
StaticallyTrue(l) ==
    \/ l.op = "true"
    \/ l.op # "false" /\ l.t[1] = 0 /\ LitHolds(l, <<>>)

\* edges (symbol target), at most one for each symbol where one is read
IsEdges(e, many) ==
    /\ IsL(e)
    /\ \A i \in 1..Size(e) : IsInts(Kids(e)[i]) /\ Size(Kids(e)[i]) = 2
    /\ ~many => \A i, j \in 1..Size(e) : i < j => IntOf(Kids(Kids(e)[i])[1]) # IntOf(Kids(Kids(e)[j])[1])
\* an edge to -1 is an edge to nowhere
EdgesOf(e) == SelectSeq([i \in 1..Size(e) |-> IntsOf(Kids(e)[i])], LAMBDA p : p[2] # -1)
IsEdgeLists(e, many) == IsL(e) /\ \A i \in 1..Size(e) : IsEdges(Kids(e)[i], many)
EdgeListsOf(e) == [i \in 1..Size(e) |-> EdgesOf(Kids(e)[i])]

\* table entries are integers or *
IsRow(e) == IsL(e) /\ \A i \in 1..Size(e) : IsA(Kids(e)[i]) /\ (Kids(e)[i][2] = "*" \/ IsInt(Kids(e)[i]))
IsRows(e) == IsL(e) /\ \A i \in 1..Size(e) : IsRow(Kids(e)[i])
RowsOf(e) == [i \in 1..Size(e) |-> [j \in 1..Size(Kids(e)[i]) |->
                IF Kids(Kids(e)[i])[j][2] = "*" THEN 99 ELSE IntOf(Kids(Kids(e)[i])[j])]]

EntryOp == ("<" :> "lt") @@ ("<=" :> "le") @@ ("=" :> "eq") @@ ("!=" :> "ne") @@ (">" :> "gt") @@ (">=" :> "ge")
IsEntry(e, vs, views) ==
    /\ IsL(e) /\ Size(e) = 3
    /\ IsVar(Kids(e)[1], vs, views)
    /\ IsA(Kids(e)[2])
    /\ IF Kids(e)[2][2] \in {"in", "notin"} THEN IsInts(Kids(e)[3])
       ELSE Kids(e)[2][2] \in DOMAIN EntryOp /\ IsVar(Kids(e)[3], vs, views)
EntryOf(e, vs) ==
    LET op == Kids(e)[2][2] x == VarOf(Kids(e)[1], vs)
    IN  IF op \in {"in", "notin"} THEN [e |-> "set", a |-> x, set |-> IntsOf(Kids(e)[3]), in |-> op = "in"]
        ELSE [e |-> "bin", op |-> EntryOp[op], a |-> x, b |-> VarOf(Kids(e)[3], vs)]
IsEntries(e, vs, views) ==
    IsL(e) /\ \A i \in 1..Size(e) : IsL(Kids(e)[i]) /\ \A j \in 1..Size(Kids(e)[i]) : IsEntry(Kids(Kids(e)[i])[j], vs, views)
EntriesOf(e, vs) == [i \in 1..Size(e) |-> [j \in 1..Size(Kids(e)[i]) |-> EntryOf(Kids(Kids(e)[i])[j], vs)]]

IsIndex(e, vs, views) == IsL(e) /\ Size(e) = 2 /\ IsVar(Kids(e)[1], vs, views) /\ IsInt(Kids(e)[2])
IsGroup(e, vs, views) == IsL(e) /\ Size(e) = 2 /\ IsVars(Kids(e)[1], vs, views) /\ IsInt(Kids(e)[2])

IsSum(e, vs, views) ==
    /\ IsL(e) /\ Size(e) % 2 = 0
    /\ \A i \in 1..(Size(e) \div 2) : IsInt(Kids(e)[2 * i - 1]) /\ IsVar(Kids(e)[2 * i], vs, views)
SumOf(e, vs) == [i \in 1..(Size(e) \div 2) |-> <<IntOf(Kids(e)[2 * i - 1]), VarOf(Kids(e)[2 * i], vs)>>]

IsDiffEdge(e, vs, views) ==
    /\ IsL(e) /\ Size(e) \in {3, 4}
    /\ IsVar(Kids(e)[1], vs, views) /\ IsVar(Kids(e)[2], vs, views) /\ IsInt(Kids(e)[3])
    /\ Size(e) = 4 => IsCond(Kids(e)[4], vs, views)
DiffEdgeOf(e, vs) ==
    [x |-> VarOf(Kids(e)[1], vs), y |-> VarOf(Kids(e)[2], vs), d |-> IntOf(Kids(e)[3]),
     c |-> IF Size(e) = 4 THEN CondOf(Kids(e)[4], vs) ELSE TrueLit]

-----------------------------------------------------------------------------
(* Keywords, and what kind of operands each takes.                             *)

Must == [m |-> "must"]

PlainCompare == {"less_than", "less_equal", "greater_than", "greater_equal"}
PlainLex == {"lex_less_than", "lex_less_equal", "lex_greater_than", "lex_greater_equal"}
PlainLinear == {"lin_equals", "lin_not_equals", "lin_less_equal"}
PlainEquals == {"equals", "not_equals"}
With(S, suffix) == {s \o suffix : s \in S}
Families == PlainCompare \cup PlainLinear \cup PlainEquals

\* keyword -> <<plain keyword, mode>>
Reifying ==
    [k \in Families \cup PlainLex \cup With(Families \cup PlainLex, "_if") \cup With(Families \cup PlainLex, "_iff")
           \cup With(PlainLex, "_not") \cup With(PlainLex, "_not_if") |->
        LET p == CHOOSE p \in Families \cup PlainLex : k \in {p, p \o "_if", p \o "_iff", p \o "_not", p \o "_not_if"}
        IN  <<p, IF k = p THEN "must" ELSE IF k = p \o "_if" THEN "if" ELSE IF k = p \o "_iff" THEN "iff"
                 ELSE IF k = p \o "_not" THEN "mustnot" ELSE "notif">>]

\* fixed operand shapes: v a variable, V a list of them, n an integer, N a list
Shapes ==
    ("abs" :> <<"v", "v">>) @@ ("all_different" :> <<"V">>) @@ ("all_equal" :> <<"V">>) @@ ("circuit" :> <<"V">>)
    @@ ("array_min" :> <<"V", "v">>) @@ ("array_max" :> <<"V", "v">>)
    @@ ("boundsglobalcardinality" :> <<"V", "N", "V">>) @@ ("boundsglobalcardinalityclosed" :> <<"V", "N", "V">>)
    @@ ("gacglobalcardinality" :> <<"V", "N", "V">>) @@ ("gacglobalcardinalityclosed" :> <<"V", "N", "V">>)
    @@ ("increasing" :> <<"V">>) @@ ("strictly_increasing" :> <<"V">>)
    @@ ("decreasing" :> <<"V">>) @@ ("strictly_decreasing" :> <<"V">>)
    @@ ("sort" :> <<"V", "V">>) @@ ("arg_sort" :> <<"V", "V", "n">>)
    @@ ("in" :> <<"V", "v">>) @@ ("element" :> <<"V", "i", "v">>) @@ ("element_2d" :> <<"M", "i", "i", "v">>)
    @@ ("count" :> <<"V", "v", "v">>) @@ ("nvalue" :> <<"V", "v">>) @@ ("inverse" :> <<"g", "g">>)
    @@ ("and" :> <<"L", "l">>) @@ ("or" :> <<"L", "l">>) @@ ("parity" :> <<"L", "l">>)
    @@ ("plus" :> <<"v", "v", "v">>) @@ ("minus" :> <<"v", "v", "v">>) @@ ("multiply" :> <<"v", "v", "v">>)
    @@ ("divide" :> <<"v", "v", "v">>) @@ ("modulus" :> <<"v", "v", "v">>) @@ ("power" :> <<"V">>)
    @@ ("disjunctive" :> <<"V", "V">>) @@ ("disjunctive_strict" :> <<"V", "V">>)
    @@ ("disjunctive_optional" :> <<"V", "V", "V">>) @@ ("disjunctive_strict_optional" :> <<"V", "V", "V">>)
    @@ ("disjunctive2d" :> <<"V", "V", "V", "V">>) @@ ("disjunctive2d_strict" :> <<"V", "V", "V", "V">>)
    @@ ("cumulative" :> <<"V", "V", "V", "v">>) @@ ("cumulative_optional" :> <<"V", "V", "V", "V", "v">>)
    @@ ("regular" :> <<"V", "n", "E", "N">>) @@ ("table" :> <<"R", "V">>) @@ ("negative_table" :> <<"R", "V">>)
    @@ ("smart_table" :> <<"S", "V">>) @@ ("all_different_except" :> <<"V", "N">>)
    @@ ("symmetric_all_different" :> <<"V", "n">>) @@ ("at_most_one" :> <<"V", "v">>)
    @@ ("at_most_one_smart_table" :> <<"V", "v">>) @@ ("among" :> <<"V", "N", "v">>)
    @@ ("value_precede" :> <<"N", "V">>) @@ ("seq_precede_chain" :> <<"V">>)
    @@ ("knapsack" :> <<"G", "V", "V">>) @@ ("difference" :> <<"D">>)
    @@ ("mdd" :> <<"V", "N", "F", "N">>) @@ ("nogoods" :> <<"C">>) @@ ("lex_smart_table" :> <<"V", "V">>)

Keywords == DOMAIN Shapes \cup DOMAIN Reifying \cup {"binpacking", "min_distance"}

Fits(e, s, vs, views) ==
    CASE s = "v" -> IsVar(e, vs, views)
      [] s = "V" -> IsVars(e, vs, views)
      [] s = "M" -> IsVarGrid(e, vs, views)
      [] s = "n" -> IsInt(e)
      [] s = "N" -> IsInts(e)
      [] s = "G" -> IsGrid(e)
      [] s = "i" -> IsIndex(e, vs, views)
      [] s = "g" -> IsGroup(e, vs, views)
      [] s = "l" -> IsLit(e, vs, views)
      [] s = "L" -> IsLits(e, vs, views)
      [] s = "c" -> IsCond(e, vs, views)
      [] s = "C" -> IsL(e) /\ \A i \in 1..Size(e) :
                        IsL(Kids(e)[i]) /\ \A j \in 1..Size(Kids(e)[i]) : IsCond(Kids(Kids(e)[i])[j], vs, views)
      [] s = "w" -> IsSum(e, vs, views)
      [] s = "E" -> IsEdgeLists(e, views)
      [] s = "F" -> IsL(e) /\ \A i \in 1..Size(e) : IsEdgeLists(Kids(e)[i], views)
      [] s = "R" -> IsRows(e)
      [] s = "S" -> IsEntries(e, vs, views)
      [] s = "D" -> IsL(e) /\ \A i \in 1..Size(e) : IsDiffEdge(Kids(e)[i], vs, views)

ReifiedShape(k) ==
    LET p == Reifying[k][1] m == Reifying[k][2]
        c == IF m \in {"must", "mustnot"} THEN <<>> ELSE <<"c">>
    IN  c \o (CASE p \in PlainLex -> <<"V", "V">>
                [] p \in PlainLinear -> <<"w", "n">>
                [] OTHER -> <<"v", "v">>)

\* e is (label keyword operands...)
FitsAll(e, shape, vs, views) ==
    /\ Size(e) = Len(shape) + 2
    /\ \A i \in 1..Len(shape) : Fits(Kids(e)[i + 2], shape[i], vs, views)

WellShaped(e, vs, views) ==
    LET k == Kids(e)[2][2]
    IN  CASE k \in DOMAIN Reifying -> FitsAll(e, ReifiedShape(k), vs, views)
          [] k = "binpacking" ->
                /\ Size(e) = 6
                /\ IsVars(Kids(e)[3], vs, views) /\ IsInts(Kids(e)[4]) /\ IsA(Kids(e)[5])
                /\ \/ Kids(e)[5][2] = "loads" /\ IsVars(Kids(e)[6], vs, views)
                   \/ Kids(e)[5][2] = "capacities" /\ IsInts(Kids(e)[6])
          [] k = "min_distance" -> FitsAll(e, <<"V", "v", "G">>, vs, views) \/ FitsAll(e, <<"V", "v", "G", "G">>, vs, views)
          [] k = "parity" ->
                FitsAll(e, Shapes[k], vs, views) /\ StaticallyTrue(LitOf(Kids(e)[4], vs))
          [] k = "power" -> FitsAll(e, Shapes[k], vs, views) /\ Size(Kids(e)[3]) = 3
          [] OTHER -> FitsAll(e, Shapes[k], vs, views)

-----------------------------------------------------------------------------
(* What a well shaped constraint means.                                        *)

MeaningOf(e, vs) ==
    LET k == Kids(e)[2][2]
        A(i) == Kids(e)[i + 2]
        V(i) == VarOf(A(i), vs)
        Vs(i) == VarsOf(A(i), vs)
    IN
    IF k \in DOMAIN Reifying
    THEN LET p == Reifying[k][1] m == Reifying[k][2]
             cond == m \notin {"must", "mustnot"}
             r == IF cond THEN [m |-> m, c |-> CondOf(A(1), vs)] ELSE [m |-> m]
             B(i) == A(IF cond THEN i + 1 ELSE i)
             \* the negative half forms: not equals when the condition holds
             rn == IF m = "must" THEN [m |-> "mustnot"] ELSE IF m = "if" THEN [r EXCEPT !.m = "notif"] ELSE r
         IN  CASE p \in PlainCompare ->
                    [k |-> "compare", x |-> VarOf(B(1), vs), y |-> VarOf(B(2), vs), r |-> r, cls |-> FALSE,
                     gt |-> p \in {"greater_than", "greater_equal"}, oreq |-> p \in {"less_equal", "greater_equal"}]
               [] p \in PlainLex ->
                    [k |-> "lex", xs |-> VarsOf(B(1), vs), ys |-> VarsOf(B(2), vs), r |-> r,
                     lt |-> p \in {"lex_less_than", "lex_less_equal"}, oreq |-> p \in {"lex_less_equal", "lex_greater_equal"}]
               [] p = "lin_less_equal" -> [k |-> "linle", sum |-> SumOf(B(1), vs), value |-> IntOf(B(2)), ge |-> FALSE, r |-> r]
               [] p = "lin_equals" -> [k |-> "lineq", sum |-> SumOf(B(1), vs), value |-> IntOf(B(2)), ne |-> FALSE, r |-> r]
               [] p = "lin_not_equals" ->
                    IF m = "iff" THEN [k |-> "lineq", sum |-> SumOf(B(1), vs), value |-> IntOf(B(2)), ne |-> TRUE, r |-> r]
                    ELSE [k |-> "lineq", sum |-> SumOf(B(1), vs), value |-> IntOf(B(2)), ne |-> FALSE, r |-> rn]
               [] p = "equals" -> [k |-> "equals", x |-> VarOf(B(1), vs), y |-> VarOf(B(2), vs), ne |-> FALSE, r |-> r, cls |-> FALSE]
               [] p = "not_equals" ->
                    IF m = "iff" THEN [k |-> "equals", x |-> VarOf(B(1), vs), y |-> VarOf(B(2), vs), ne |-> TRUE, r |-> r, cls |-> FALSE]
                    ELSE [k |-> "equals", x |-> VarOf(B(1), vs), y |-> VarOf(B(2), vs), ne |-> FALSE, r |-> rn, cls |-> FALSE]
    ELSE
    CASE k = "abs" -> [k |-> "abs", x |-> V(1), y |-> V(2)]
      [] k = "all_different" -> [k |-> "alldiff", xs |-> Vs(1)]
      [] k = "all_different_except" -> [k |-> "alldiffexcept", xs |-> Vs(1), except |-> IntsOf(A(2))]
      [] k = "symmetric_all_different" -> [k |-> "symalldiff", xs |-> Vs(1), start |-> IntOf(A(2))]
      [] k = "all_equal" -> [k |-> "allequal", xs |-> Vs(1)]
      [] k = "circuit" -> [k |-> "circuit", xs |-> Vs(1)]
      [] k \in {"array_min", "array_max"} -> [k |-> "minmax", xs |-> Vs(1), y |-> V(2), min |-> k = "array_min"]
      [] k \in {"boundsglobalcardinality", "gacglobalcardinality"} ->
            [k |-> "gcc", xs |-> Vs(1), vals |-> IntsOf(A(2)), ys |-> Vs(3), closed |-> FALSE]
      [] k \in {"boundsglobalcardinalityclosed", "gacglobalcardinalityclosed"} ->
            [k |-> "gcc", xs |-> Vs(1), vals |-> IntsOf(A(2)), ys |-> Vs(3), closed |-> TRUE]
      [] k \in {"increasing", "strictly_increasing", "decreasing", "strictly_decreasing"} ->
            [k |-> "increasing", xs |-> Vs(1), strict |-> k \in {"strictly_increasing", "strictly_decreasing"},
             desc |-> k \in {"decreasing", "strictly_decreasing"}]
      [] k = "sort" -> [k |-> "sort", xs |-> Vs(1), ys |-> Vs(2)]
      [] k = "arg_sort" -> [k |-> "argsort", xs |-> Vs(1), ps |-> Vs(2), off |-> IntOf(A(3))]
      [] k = "in" -> [k |-> "in", xs |-> Vs(1), x |-> V(2), vals |-> <<>>]
      [] k = "element" ->
            [k |-> "element", arr |-> Vs(1), i |-> VarOf(Kids(A(2))[1], vs), off |-> IntOf(Kids(A(2))[2]), y |-> V(3)]
      [] k = "element_2d" ->
            [k |-> "element2d", arr |-> VarGridOf(A(1), vs), i |-> VarOf(Kids(A(2))[1], vs), o1 |-> IntOf(Kids(A(2))[2]),
             j |-> VarOf(Kids(A(3))[1], vs), o2 |-> IntOf(Kids(A(3))[2]), y |-> V(4)]
      [] k = "count" -> [k |-> "count", xs |-> Vs(1), val |-> V(2), y |-> V(3)]
      [] k = "nvalue" -> [k |-> "nvalue", xs |-> Vs(1), y |-> V(2)]
      [] k = "inverse" ->
            [k |-> "inverse", xs |-> VarsOf(Kids(A(1))[1], vs), x0 |-> IntOf(Kids(A(1))[2]),
             ys |-> VarsOf(Kids(A(2))[1], vs), y0 |-> IntOf(Kids(A(2))[2])]
      [] k \in {"and", "or"} -> [k |-> k, ls |-> LitsOf(A(1), vs), y |-> LitOf(A(2), vs)]
      [] k = "parity" -> [k |-> "parity", ls |-> LitsOf(A(1), vs)]
      [] k \in {"plus", "minus", "multiply", "divide", "modulus"} -> [k |-> k, x |-> V(1), y |-> V(2), z |-> V(3)]
      [] k = "power" -> [k |-> "power", x |-> Vs(1)[1], y |-> Vs(1)[2], z |-> Vs(1)[3]]
      [] k \in {"disjunctive", "disjunctive_strict"} ->
            [k |-> "disjunctive", starts |-> Vs(1), lengths |-> Vs(2), pres |-> <<>>, strict |-> k = "disjunctive_strict"]
      [] k \in {"disjunctive_optional", "disjunctive_strict_optional"} ->
            [k |-> "disjunctive", starts |-> Vs(1), lengths |-> Vs(2), pres |-> Vs(3), strict |-> k = "disjunctive_strict_optional"]
      [] k \in {"disjunctive2d", "disjunctive2d_strict"} ->
            [k |-> "disjunctive2d", xs |-> Vs(1), ys |-> Vs(2), ws |-> Vs(3), hs |-> Vs(4), strict |-> k = "disjunctive2d_strict"]
      [] k = "cumulative" -> [k |-> "cumulative", starts |-> Vs(1), lengths |-> Vs(2), heights |-> Vs(3), pres |-> <<>>, cap |-> V(4)]
      [] k = "cumulative_optional" ->
            [k |-> "cumulative", starts |-> Vs(1), lengths |-> Vs(2), heights |-> Vs(3), pres |-> Vs(4), cap |-> V(5)]
      [] k = "regular" -> [k |-> "nfa", xs |-> Vs(1), n |-> IntOf(A(2)), tr |-> EdgeListsOf(A(3)), fin |-> IntsOf(A(4))]
      [] k = "table" -> [k |-> "table", ts |-> RowsOf(A(1)), xs |-> Vs(2)]
      [] k = "negative_table" -> [k |-> "negtable", ts |-> RowsOf(A(1)), xs |-> Vs(2)]
      [] k = "smart_table" -> [k |-> "smarttable", ts |-> EntriesOf(A(1), vs), xs |-> Vs(2)]
      [] k \in {"at_most_one", "at_most_one_smart_table"} -> [k |-> IF k = "at_most_one" THEN "atmostone" ELSE "atmostonesmart", xs |-> Vs(1), y |-> V(2)]
      [] k = "among" -> [k |-> "among", xs |-> Vs(1), vals |-> IntsOf(A(2)), y |-> V(3)]
      [] k = "value_precede" -> [k |-> "valueprecede", chain |-> IntsOf(A(1)), xs |-> Vs(2)]
      [] k = "seq_precede_chain" -> [k |-> "seqprecede", xs |-> Vs(1)]
      [] k = "knapsack" -> [k |-> "knapsack", co |-> GridOf(A(1)), xs |-> Vs(2), ts |-> Vs(3)]
      [] k = "binpacking" ->
            IF A(3)[2] = "loads" THEN [k |-> "binpackingload", xs |-> Vs(1), sizes |-> IntsOf(A(2)), loads |-> Vs(4)]
            ELSE [k |-> "binpackingcap", xs |-> Vs(1), sizes |-> IntsOf(A(2)), caps |-> IntsOf(A(4))]
      [] k = "difference" -> [k |-> "difference", edges |-> [i \in 1..Size(A(1)) |-> DiffEdgeOf(Kids(A(1))[i], vs)]]
      [] k = "mdd" ->
            [k |-> "mdd", xs |-> Vs(1), nodes |-> IntsOf(A(2)), accept |-> IntsOf(A(4)),
             tr |-> [i \in 1..Size(A(3)) |-> EdgeListsOf(Kids(A(3))[i])]]
      [] k = "min_distance" ->
            [k |-> "mindistance", xs |-> Vs(1), z |-> V(2), d |-> GridOf(A(3)), req |-> Size(e) = 6,
             r |-> IF Size(e) = 6 THEN GridOf(A(4)) ELSE <<>>]
      [] k = "nogoods" ->
            [k |-> "nogoods", ns |-> [i \in 1..Size(A(1)) |-> [j \in 1..Size(Kids(A(1))[i]) |-> CondOf(Kids(Kids(A(1))[i])[j], vs)]]]
      [] k = "lex_smart_table" -> [k |-> "lexsmart", xs |-> Vs(1), ys |-> Vs(2)]

\* several edges on one symbol: the states reachable
RECURSIVE Reached(_, _, _, _)
Reached(tr, S, v, i) ==
    IF i > Len(v) THEN S
    ELSE Reached(tr, {p[2] : p \in UNION {{tr[q + 1][k] : k \in {k \in 1..Len(tr[q + 1]) : tr[q + 1][k][1] = v[i]}} : q \in S}}, v, i + 1)

MeaningHolds(c, a) ==
    IF c.k = "nfa" THEN (Reached(c.tr, {0}, Vals(c.xs, a), 1) \cap Range(c.fin)) # {} ELSE Holds1(c, a)

-----------------------------------------------------------------------------
(* Well shaped constraints no meaning is given to: sizes that disagree, or     *)
(* values outside what the constraint is about.                                *)

R0 == INSTANCE Rejections

NonNegative(S) == \A x \in S : x >= 0
NonNegTerms(ts, doms) == \A i \in 1..Len(ts) : NonNegative(TermValues(ts[i], doms))
SquareOf(d, n) == Len(d) = n /\ \A i \in 1..n : Len(d[i]) = n

IllFormed(c, doms) ==
    CASE c.k = "inverse" -> Len(c.xs) # Len(c.ys) \/ R0!Rejected(c, doms)
      [] c.k = "sort" -> Len(c.xs) # Len(c.ys)
      [] c.k = "argsort" -> Len(c.xs) # Len(c.ps)
      [] c.k = "gcc" -> Len(c.vals) # Len(c.ys)
      [] c.k = "element2d" -> \E i \in 1..Len(c.arr) : Len(c.arr[i]) # Len(c.arr[1])
      [] c.k = "mindistance" ->
            \/ Len(c.xs) < 2 \/ Len(c.d) = 0 \/ ~SquareOf(c.d, Len(c.d))
            \/ \E i, j \in 1..Len(c.d) : c.d[i][j] < 0 \/ c.d[i][j] # c.d[j][i] \/ c.d[i][i] # 0
            \/ c.req /\ (~SquareOf(c.r, Len(c.xs)) \/ \E i, j \in 1..Len(c.xs) : i < j /\ c.r[i][j] < 0)
      [] c.k = "mdd" ->
            \/ Len(c.nodes) # Len(c.xs) + 1 \/ Len(c.tr) # Len(c.xs) \/ c.nodes[1] # 1
            \/ \E i \in 1..Len(c.tr) : Len(c.tr[i]) < c.nodes[i]
            \/ \E i \in 1..Len(c.tr) : \E q \in 1..Len(c.tr[i]) : \E p \in 1..Len(c.tr[i][q]) : q <= c.nodes[i] /\ c.tr[i][q][p][2] \notin 0..(c.nodes[i + 1] - 1)
            \/ \E i \in 1..Len(c.accept) : c.accept[i] \notin 0..(c.nodes[Len(c.nodes)] - 1)
      [] c.k = "nfa" ->
            \/ c.n < 1 \/ Len(c.tr) < c.n
            \/ \E q \in 1..c.n : \E p \in 1..Len(c.tr[q]) : c.tr[q][p][2] \notin 0..(c.n - 1)
            \/ \E i \in 1..Len(c.fin) : c.fin[i] \notin 0..(c.n - 1)
      [] c.k = "disjunctive" ->
            \/ Len(c.starts) # Len(c.lengths) \/ (c.pres # <<>> /\ Len(c.pres) # Len(c.starts))
            \/ ~NonNegTerms(c.lengths, doms) \/ R0!Rejected(c, doms)
      [] c.k = "disjunctive2d" ->
            \/ Cardinality({Len(c.xs), Len(c.ys), Len(c.ws), Len(c.hs)}) # 1
            \/ ~NonNegTerms(c.ws, doms) \/ ~NonNegTerms(c.hs, doms)
      [] c.k = "cumulative" ->
            \/ Cardinality({Len(c.starts), Len(c.lengths), Len(c.heights)}) # 1
            \/ (c.pres # <<>> /\ Len(c.pres) # Len(c.starts))
            \/ ~NonNegTerms(c.lengths, doms) \/ ~NonNegTerms(c.heights, doms) \/ ~NonNegTerms(<<c.cap>>, doms)
            \/ R0!Rejected(c, doms)
      [] c.k \in {"binpackingload", "binpackingcap"} ->
            LET b == IF c.k = "binpackingload" THEN Len(c.loads) ELSE Len(c.caps)
            IN  \/ Len(c.xs) # Len(c.sizes) \/ ~NonNegative(Range(c.sizes)) \/ b = 0
                \/ \E i \in 1..Len(c.xs) : ~(TermValues(c.xs[i], doms) \subseteq 0..(b - 1))
                \/ IF c.k = "binpackingload" THEN ~NonNegTerms(c.loads, doms) ELSE ~NonNegative(Range(c.caps))
      [] c.k = "minmax" -> Len(c.xs) = 0
      [] c.k \in {"table", "negtable"} -> \E t \in 1..Len(c.ts) : Len(c.ts[t]) # Len(c.xs)
      [] c.k = "knapsack" ->
            \/ Len(c.co) # Len(c.ts) \/ Len(c.co) = 0
            \/ \E q \in 1..Len(c.co) : Len(c.co[q]) # Len(c.xs) \/ ~NonNegative(Range(c.co[q]))
            \/ ~NonNegTerms(c.xs, doms) \/ ~NonNegTerms(c.ts, doms)
      [] OTHER -> R0!Rejected(c, doms)

\* smart tables over constants, or with an entry that compares a variable with
\* itself or is over one outside the table, have a meaning but need not be solved
Smart(c) == c.k \in {"smarttable", "lexsmart", "atmostonesmart"}
SmartVars(c) ==
    CASE c.k = "smarttable" -> {c.xs[i] : i \in 1..Len(c.xs)}
            \cup UNION {UNION {LET e == c.ts[t][i] IN IF e.e = "bin" THEN {e.a, e.b} ELSE {e.a} : i \in 1..Len(c.ts[t])} : t \in 1..Len(c.ts)}
      [] c.k = "lexsmart" -> Range(c.xs) \cup Range(c.ys)
      [] c.k = "atmostonesmart" -> Range(c.xs) \cup {c.y}
SameAt(c) ==
    CASE c.k = "smarttable" -> \E t \in 1..Len(c.ts) : \E i \in 1..Len(c.ts[t]) : c.ts[t][i].e = "bin" /\ c.ts[t][i].a[1] = c.ts[t][i].b[1]
      [] c.k = "lexsmart" -> \E i \in 1..Len(c.xs), j \in 1..Len(c.ys) : c.xs[i][1] = c.ys[j][1]
      [] c.k = "atmostonesmart" -> \E i \in 1..Len(c.xs) : c.xs[i][1] = c.y[1]
Outside(c) == c.k = "smarttable" /\ \E v \in SmartVars(c) : v[1] # 0 /\ \A i \in 1..Len(c.xs) : c.xs[i][1] # v[1]
Fussy(c) == Smart(c) /\ (SameAt(c) \/ Outside(c) \/ \E v \in SmartVars(c) : v[1] = 0)

-----------------------------------------------------------------------------
(* The whole document.  A document that is none is told apart by the first     *)
(* thing wrong with it: "format", or "keyword" when that is a keyword nobody   *)
(* knows; "model" when the format is followed but not by a problem.            *)

Bad(why, ill) == [ok |-> FALSE, why |-> why, ill |-> ill]

IsSection(e, tag) == IsL(e) /\ Size(e) >= 1 /\ IsA(Kids(e)[1]) /\ Kids(e)[1][2] = tag
Items(e) == Tail(Kids(e))

Framed(t) ==
    /\ IsL(t) /\ Size(t) = 4
    /\ IsSection(Kids(t)[1], "version") /\ Size(Kids(t)[1]) = 2 /\ IsInt(Kids(Kids(t)[1])[2]) /\ IntOf(Kids(Kids(t)[1])[2]) = 1
    /\ IsSection(Kids(t)[4], "prob_type") /\ Size(Kids(t)[4]) = 2
    /\ LET s == Kids(Kids(t)[4])[2]
       IN  IF IsA(s) THEN s[2] \in {"decide", "enumerate"}
           ELSE Size(s) = 2 /\ IsA(Kids(s)[1]) /\ Kids(s)[1][2] \in {"minimize", "maximize"} /\ IsA(Kids(s)[2])
    /\ IsSection(Kids(t)[2], "variables")

IsDecl(e) == IsL(e) /\ Size(e) = 3 /\ IsA(Kids(e)[1]) /\ IsInt(Kids(e)[2]) /\ IsInt(Kids(e)[3])

\* what declaring variables and constraints one after another leaves taken
RECURSIVE Declared(_, _, _)
Declared(ds, i, st) ==
    IF i > Len(ds) THEN st
    ELSE LET e == ds[i] IN
         IF ~IsDecl(e) THEN [st EXCEPT !.why = "format"]
         ELSE LET n == Kids(e)[1] lo == IntOf(Kids(e)[2]) hi == IntOf(Kids(e)[3])
              IN  IF lo > hi \/ n[2] \in st.taken THEN [st EXCEPT !.why = "model"]
                  ELSE IF IsAuto(n)
                       THEN IF AutoNumber(n) # st.anon + 1 \/ n[2] \in DOMAIN st.vs THEN [st EXCEPT !.why = "model"]
                            ELSE Declared(ds, i + 1, [st EXCEPT !.anon = @ + 1, !.vs = @ @@ (n[2] :> i), !.names = Append(@, n[2]), !.codes = Append(@, n[3]),
                                                                !.doms = Append(@, <<lo, hi>>)])
                       ELSE IF ~NM!Valid(n[3]) THEN [st EXCEPT !.why = "model"]
                            ELSE Declared(ds, i + 1, [st EXCEPT !.taken = @ \cup {n[2]}, !.vs = @ @@ (n[2] :> i), !.names = Append(@, n[2]), !.codes = Append(@, n[3]),
                                                                !.doms = Append(@, <<lo, hi>>)])

DomSeqs(doms) == [i \in 1..Len(doms) |-> IF doms[i][2] - doms[i][1] > 60 THEN doms[i] ELSE [j \in 1..(doms[i][2] - doms[i][1] + 1) |-> doms[i][1] + j - 1]]

RECURSIVE Constrained(_, _, _, _)
Constrained(cs, i, st, views) ==
    IF i > Len(cs) THEN st
    ELSE LET e == cs[i] IN
         IF ~(IsL(e) /\ Size(e) >= 2 /\ IsA(Kids(e)[1]) /\ IsA(Kids(e)[2])) THEN [st EXCEPT !.why = "format"]
         ELSE LET n == Kids(e)[1] k == Kids(e)[2][2]
              IN  IF k \notin Keywords THEN [st EXCEPT !.why = "keyword"]
                  ELSE IF ~WellShaped(e, st.vs, views) THEN [st EXCEPT !.why = "format"]
                  ELSE LET c == TLCEval(MeaningOf(e, st.vs))
                           auto == IsAuto(n)
                           next == [st EXCEPT !.cons = Append(@, c), !.labels = Append(@, n[2]), !.autos = Append(@, auto),
                                              !.num = IF auto THEN @ + 1 ELSE @,
                                              !.taken = IF auto THEN @ ELSE @ \cup {n[2]},
                                              !.ill = @ \/ IllFormed(c, DomSeqs(st.doms))]
                       IN  IF auto THEN (IF AutoNumber(n) # st.num + 1 THEN [st EXCEPT !.why = "model"] ELSE Constrained(cs, i + 1, next, views))
                           ELSE IF ~NM!Valid(n[3]) \/ n[2] \in st.taken THEN [st EXCEPT !.why = "model"]
                           ELSE Constrained(cs, i + 1, next, views)

Start == [why |-> "", vs |-> [n \in {} |-> 0], names |-> <<>>, codes |-> <<>>, doms |-> <<>>, anon |-> 0, taken |-> {}, num |-> 0,
          cons |-> <<>>, labels |-> <<>>, autos |-> <<>>, ill |-> FALSE]

\* obj: <<>> or <<variable term to minimise>>
Objective(s, vs) ==
    IF IsA(s) THEN <<>>
    ELSE LET t == VarOf(Kids(s)[2], vs)
         IN  IF Kids(s)[1][2] = "maximize" THEN << <<t[1], IF t[1] = 0 THEN 1 ELSE -t[2], -t[3]>> >> ELSE <<t>>

\* a document as a term
Document(t0, views) ==
    LET t == TLCEval(Named(t0))
    IN  IF ~Framed(t) THEN Bad("format", FALSE)
        ELSE LET d == TLCEval(Declared(Items(Kids(t)[2]), 1, Start))
             IN  IF d.why # "" THEN Bad(d.why, FALSE)
                 ELSE IF ~IsSection(Kids(t)[3], "constraints") THEN Bad("format", FALSE)
                 ELSE LET c == TLCEval(Constrained(Items(Kids(t)[3]), 1, d, views))
                          s == Kids(Kids(t)[4])[2]
                      IN  IF c.why # "" THEN Bad(c.why, c.ill)
                          ELSE IF IsL(s) /\ ~IsVar(Kids(s)[2], c.vs, FALSE) THEN Bad("model", c.ill)
                          ELSE [ok |-> TRUE, why |-> "", names |-> c.names, codes |-> c.codes, doms |-> c.doms, cons |-> c.cons, labels |-> c.labels,
                                autos |-> c.autos, ill |-> c.ill, obj |-> Objective(s, c.vs), small |-> AllSmall(t)]

Parsed(codes, views) ==
    LET r == TLCEval(SX!ReadOne(codes)) IN IF r.ok THEN Document(r.term, views) ELSE Bad("format", FALSE)

SatAll(cons, a) == \A i \in 1..Len(cons) : MeaningHolds(cons[i], a)
RECURSIVE BoxSize(_, _)
BoxSize(doms, n) == IF n = 0 THEN 1 ELSE LET b == BoxSize(doms, n - 1) w == doms[n][2] - doms[n][1] + 1 IN IF b > 5000 \/ w > 5000 THEN 10000 ELSE b * w
Box(doms) == Assignments([i \in 1..Len(doms) |-> [j \in 1..(doms[i][2] - doms[i][1] + 1) |-> doms[i][1] + j - 1]], Len(doms))

\* the same problem: names, bounds, labels, objective up to a constant, and
\* constraints that hold alike
SameObjective(o, p) ==
    Len(o) = Len(p) /\ (o # <<>> => o[1][1] = p[1][1] /\ (o[1][1] # 0 => o[1][2] = p[1][2]))
Alike(c, d, doms) == \A a \in Box(doms) : MeaningHolds(c, a) = MeaningHolds(d, a)
=============================================================================
