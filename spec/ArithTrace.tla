----------------------------- MODULE ArithTrace ----------------------------
(* A one-register machine over solver integers, and the operations that      *)
(* produce a fresh value.  Validates recorded operations against Arith.      *)
EXTENDS Arith, TraceBase

VARIABLE acc       \* the register, or <<>> while its content is unspecified

vars == <<acc, l>>
Init == acc = BZero /\ l = 1

Outcome(rel) == Holds(Ev.ev, rel)

Load == IsEvent("load") /\ acc' = Ev.v

\* Operations that update the register in place, and return a value.
InPlace(e, old, new) ==
    /\ IsEvent(e)
    /\ Check("register before", Ev.before, acc)
    /\ Check("outcome", Ev.ok, Representable(new))
    /\ Ev.ok => /\ Check("register", Ev.after, new)
                /\ Check("returned", Ev.ret, IF old THEN acc ELSE new)
    /\ acc' = IF Ev.ok THEN new ELSE acc
AddAssign == InPlace("iadd", FALSE, Add(acc, Ev.b))
SubAssign == InPlace("isub", FALSE, Sub(acc, Ev.b))
PreInc == InPlace("preinc", FALSE, Add(acc, One))
PreDec == InPlace("predec", FALSE, Sub(acc, One))
PostInc == InPlace("postinc", TRUE, Add(acc, One))
PostDec == InPlace("postdec", TRUE, Sub(acc, One))

Pure(e, rel) == IsEvent(e) /\ Outcome(rel) /\ UNCHANGED acc

Fresh ==
    \/ Pure("add", AddOk(Ev.a, Ev.b, Ev.ok, Ev.r))
    \/ Pure("sub", SubOk(Ev.a, Ev.b, Ev.ok, Ev.r))
    \/ Pure("mul", MulOk(Ev.a, Ev.b, Ev.ok, Ev.r))
    \/ Pure("div", DivOk(Ev.a, Ev.b, Ev.ok, Ev.r))
    \/ Pure("mod", ModOk(Ev.a, Ev.b, Ev.q, Ev.ok, Ev.r))
    \/ Pure("neg", NegOk(Ev.a, Ev.ok, Ev.r))
    \/ Pure("abs", AbsOk(Ev.a, Ev.ok, Ev.r))
    \/ Pure("cmp", Ev.r = Cmp(Ev.a, Ev.b) /\ Ev.eq = (Ev.a = Ev.b) /\ Ev.hasheq = (Ev.a = Ev.b \/ Ev.hasheq))
    \/ Pure("text", Ev.r = Ev.a)
    \/ Pure("power", PowerOk(Ev.a, Ev.b, Ev.ok, Ev.r))
    \/ Pure("power2", Power2Ok(Ev.a, Ev.ok, Ev.r))
    \/ Pure("floor", FloorOk(Ev.a, Ev.b, Ev.ok, Ev.r))
    \/ Pure("ceil", CeilOk(Ev.a, Ev.b, Ev.ok, Ev.r))
    \/ Pure("isqrt", IsqrtOk(Ev.a, Ev.ok, Ev.r))
    \/ Pure("cisqrt", CeilIsqrtOk(Ev.a, Ev.ok, Ev.r))
    \/ Pure("pmaybe", MulOk(Ev.a, Ev.b, Ev.ok, Ev.r))
    \/ Pure("pbounds", ProductBoundsOk(Ev.a, Ev.b, Ev.c, Ev.d, Ev.ok, Ev.lo, Ev.hi))
    \/ Pure("sbounds", SquareBoundsOk(Ev.a, Ev.b, Ev.ok, Ev.lo, Ev.hi))
    \/ Pure("sfilter", SquareFilterOk(Ev.xlo, Ev.xhi, Ev.zlo, Ev.zhi, Ev.lo, Ev.hi))
    \/ Pure("qfilter", QuotientOk(Ev.ymin, Ev.ymax, Ev.zmin, Ev.zmax, Ev.kind, Ev.lo, Ev.hi))

\* The wide and narrow forms of an operation overflow at their own widths.
Width == [i32 |-> <<Neg(<<1, <<3648, 4748, 21>> >>), <<1, <<3647, 4748, 21>> >> >>,
          u32 |-> <<BZero, <<1, <<7295, 9496, 42>> >> >>,
          i64 |-> <<MinInt, MaxInt>>,
          u64 |-> <<BZero, <<1, <<1615, 955, 737, 6744, 1844>> >> >>]
Narrow ==
    /\ IsEvent("raw")
    /\ LET x == CASE Ev.op = "add" -> Add(Ev.a, Ev.b) [] Ev.op = "sub" -> Sub(Ev.a, Ev.b) [] Ev.op = "mul" -> Mul(Ev.a, Ev.b)
           w == Width[Ev.type]
           fits == Leq(w[1], x) /\ Leq(x, w[2])
       IN  /\ Check("overflows", Ev.ok, fits)
           /\ fits => Check("value", Ev.r, x)
    /\ UNCHANGED acc

Next == Load \/ AddAssign \/ SubAssign \/ PreInc \/ PreDec \/ PostInc \/ PostDec \/ Fresh \/ Narrow

Spec == Init /\ [][Next]_vars
Canonical == IsCanonical(acc) /\ Representable(acc)
=============================================================================
