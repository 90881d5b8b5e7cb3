------------------------------- MODULE MC_Args -------------------------------
(***************************************************************************)
(* All small argument lists of the keyword parser: the laws below hold for *)
(* each, and each is written out to be tried on the real parser.           *)
(***************************************************************************)
EXTENDS Args, Json, IOUtils, SequencesExt
Defaults == [version |-> [t |-> "str", s |-> "2.1"], is_verbose |-> [t |-> "bool", b |-> FALSE], abs_tol |-> [t |-> "float", x |-> E6],
             rel_tol |-> [t |-> "float", x |-> E5], reg_tol |-> [t |-> "float", x |-> E5], ode_solver_name |-> [t |-> "str", s |-> "ode45"],
             is_ode_norm_control |-> [t |-> "bool", b |-> TRUE], is_enabled_ode_solver_options |-> [t |-> "bool", b |-> FALSE],
             n_plot_2d_points |-> [t |-> "int", x |-> FInt(200)], n_plot_3d_points |-> [t |-> "int", x |-> FInt(200)],
             n_time_grid_points |-> [t |-> "int", x |-> FInt(250)]]
Common == {[t |-> "none"], [t |-> "list"]}
Values(n) ==
  CASE n = "version" -> {[t |-> "str", s |-> "9.9"], [t |-> "int", x |-> One]}
    [] n \in Flags -> {[t |-> "bool", b |-> TRUE], [t |-> "bool", b |-> FALSE], [t |-> "int", x |-> One], [t |-> "str", s |-> "on"]}
    [] n \in Tolerances -> {[t |-> "float", x |-> E4], [t |-> "float", x |-> Half], [t |-> "float", x |-> Zero], [t |-> "float", x |-> FNeg(E4)],
                            [t |-> "int", x |-> One], [t |-> "str", s |-> "x"], [t |-> "nan"], [t |-> "bool", b |-> TRUE]}
    [] n = "ode_solver_name" -> {[t |-> "str", s |-> "ode23"], [t |-> "str", s |-> "ode113"], [t |-> "str", s |-> "ode"], [t |-> "int", x |-> Two]}
    [] n \in Counts -> {[t |-> "int", x |-> FInt(17)], [t |-> "float", x |-> FInt(30)], [t |-> "float", x |-> FScaled(75000, 1)],
                        [t |-> "str", s |-> "7"], [t |-> "nan"]}
    [] OTHER -> {[t |-> "int", x |-> FInt(5)]}
Given1 == UNION {{[k \in {n} |-> v] : v \in Values(n) \cup (IF n = "foreign" THEN {} ELSE Common)} : n \in Known \cup {"foreign"}}
Given2 == UNION {UNION {{[k \in {n, m} |-> IF k = n THEN v ELSE w] : v \in Values(n), w \in Values(m)} : n \in {"abs_tol", "n_plot_2d_points", "foreign"}}
                 : m \in {"rel_tol", "n_plot_3d_points", "is_verbose", "ode_solver_name", "other"}}
Some == {"abs_tol", "rel_tol", "n_plot_2d_points", "is_verbose", "ode_solver_name"}
Needed1 == {<<n>> : n \in Known} \cup {<<a, b>> : a \in Some, b \in Known} \cup {<<"n_plot_3d_points", "n_plot_2d_points", "rel_tol", "abs_tol">>}
Needed2 == {<<"abs_tol", "rel_tol", "n_plot_2d_points", "n_plot_3d_points">>, <<"n_plot_3d_points", "abs_tol">>, <<"is_verbose", "ode_solver_name", "rel_tol">>}
Cases == {[op |-> "parse", all |-> FALSE, needed |-> s, given |-> g] : s \in Needed1, g \in {h \in Given1 : TRUE}}
         \cup {[op |-> "parse", all |-> FALSE, needed |-> s, given |-> g] : s \in Needed2, g \in Given2}
         \cup {[op |-> "parse", all |-> TRUE, needed |-> << >>, given |-> g] : g \in Given1 \cup Given2}
         \cup {[op |-> "parse", all |-> FALSE, needed |-> s, given |-> [abs_tol |-> [t |-> "float", x |-> E4]]]
               : s \in {<<"nothing">>, <<"abs_tol", "absTol">>, << >>}}
\* distinct names only: asking twice for one name is not specified
Proper(c) == \A i, j \in 1..Len(c.needed) : i = j \/ c.needed[i] /= c.needed[j]
Proper0 == {c \in Cases : Proper(c)}
\* constructor arguments
Fl == <<1>>                                         \* not a number
Ar(sh, v) == [t |-> "arr", sh |-> sh, v |-> v, kind |-> "real"]
Cx(sh, v, im) == [t |-> "arr", sh |-> sh, v |-> v, im |-> im, kind |-> "complex"]
Txt(sh) == [t |-> "arr", sh |-> sh, v |-> << >>, kind |-> "text"]
I(n) == FInt(n)
Sm == FMul(FScaled(4000, 1), E6)                    \* 0.4 of the tolerance
Bg == FTimes(3, E6)
Three == {I(-1), Zero, One}
Mats2 == {Ar(<<2, 2>>, <<a, b, c, d>>) : a, b, c, d \in Three}
Mats1 == {Ar(<<1, 1>>, <<a>>) : a \in Three \cup {Fl, <<2>>, <<3>>, FNeg(Sm), FNeg(Bg)}}
MatsOdd == {Ar(<<2, 2>>, <<One, x, Zero, One>>) : x \in {Sm, Bg, FNeg(Sm), FNeg(Bg)}} \cup {Ar(<<2, 2>>, <<One, Zero, x, One>>) : x \in {Sm, Bg}}
           \cup {Ar(<<2, 2>>, <<x, Zero, Zero, y>>) : x, y \in {One, FNeg(Sm), FNeg(Bg)}}
           \cup {Ar(<<2, 2>>, <<One, FAdd(One, x), FAdd(One, x), One>>) : x \in {FMul(Half, Sm), FTimes(10, E6)}}
           \cup {Ar(<<2, 2>>, [k \in 1..4 |-> IF k = j THEN x ELSE IF k \in {1, 4} THEN One ELSE Zero]) : j \in 1..4, x \in {Fl, <<2>>, <<3>>}}
           \cup {Ar(<<2, 1>>, <<One, One>>), Ar(<<1, 2>>, <<One, One>>), Ar(<<2>>, <<One, One>>), Ar(<<1>>, <<One>>), Ar(<<1, 1, 1>>, <<One>>), Ar(<<2, 3>>, <<One, Zero, Zero, Zero, One, Zero>>), Ar(<<0, 0>>, << >>)}
           \cup {Cx(<<1, 1>>, <<One>>, <<x>>) : x \in {Zero, FMul(Half, E8), One, I(-1)}}
           \cup {Cx(<<2, 2>>, <<One, Zero, Zero, One>>, [k \in 1..4 |-> IF k = j THEN x ELSE Zero]) : j \in {1, 3}, x \in {Zero, One}}
           \cup {Txt(<<1, 1>>), Txt(<<2, 2>>), [t |-> "list"], [t |-> "NoneType"], [t |-> "float"], [t |-> "str"]}
Mats == Mats1 \cup Mats2 \cup MatsOdd
Vecs == {Ar(<<n>>, [k \in 1..n |-> I(k)]) : n \in 0..3} \cup {Ar(<<n, 1>>, [k \in 1..n |-> I(k)]) : n \in 1..3} \cup {Ar(<<1, n>>, [k \in 1..n |-> I(k)]) : n \in 1..3}
        \cup {Ar(<<2, 2>>, <<One, One, One, One>>), Ar(<<2, 3>>, [k \in 1..6 |-> One]), Ar(<<2>>, <<One, Fl>>), Ar(<<2>>, <<<<3>>, One>>), Ar(<<1>>, <<<<2>>>>)}
        \cup {Cx(<<1>>, <<One>>, <<x>>) : x \in {Zero, One}} \cup {Cx(<<2>>, <<One, Two>>, <<Zero, x>>) : x \in {Zero, I(-1)}}
        \cup {Txt(<<1>>), Txt(<<2>>), [t |-> "list"], [t |-> "NoneType"], [t |-> "float"], [t |-> "str"]}
Good == {Ar(<<1, 1>>, <<One>>), Ar(<<2, 2>>, <<One, Zero, Zero, Zero>>), Ar(<<2, 2>>, <<One, One, Zero, One>>), Ar(<<0, 0>>, << >>), Ar(<<2, 1>>, <<One, One>>)}
Shifts == {Ar(<< >>, <<x>>) : x \in {Zero, One, I(-2), Fl, <<2>>, <<3>>}} \cup {Ar(<<1>>, <<One>>), Ar(<<1, 1>>, <<Two>>), Ar(<<2>>, <<One, One>>), Ar(<<0>>, << >>),
          Cx(<< >>, <<One>>, <<One>>), Cx(<< >>, <<One>>, <<FNeg(Half)>>), Txt(<< >>), [t |-> "list"], [t |-> "NoneType"]}
Ctor(k, a) == [op |-> "ctor", kind |-> k, args |-> a, tol |-> E6]
CtorCases == {Ctor("e", << >>)} \cup {Ctor("e", <<q>>) : q \in Mats} \cup {Ctor("e", <<c, q>>) : c \in Vecs, q \in Good}
             \cup {Ctor("e", <<Ar(<<2>>, <<One, Two>>), q>>) : q \in Mats \ Mats1} \cup {Ctor("e", <<Ar(<<1>>, <<Two>>), q>>) : q \in Mats1}
             \cup {Ctor("h", <<n, x>>) : n \in Vecs \ {Ar(<<0>>, << >>)}, x \in Shifts} \cup {Ctor("h", <<n>>) : n \in Vecs \ {Ar(<<0>>, << >>)}}
Chosen0 == TLCEval(IF IOEnv.PART = "ctor" THEN CtorCases ELSE Proper0)
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Chosen0))

VARIABLE case
Init == case \in Chosen0
Next == UNCHANGED case
Needed(c) == IF c.all THEN AllNames ELSE c.needed
Accepted(c) == ~ParseRefused(Needed(c), c.given, Defaults)
\* every supplied keyword is either used or handed back
Partition == case.op = "ctor" \/ LET used == {Needed(case)[k] : k \in 1..Len(Needed(case))} \cap DOMAIN case.given
                 rest == ParseRest(Needed(case), case.given)
             IN used \cup rest = DOMAIN case.given /\ used \cap rest = {}
\* positions are independent of each other; only valid values ever come out
Positions == (case.op /= "ctor" /\ Accepted(case)) => \A k \in 1..Len(Needed(case)) :
    /\ ParseResult(Needed(case), case.given, Defaults)[k] = ParseResult(<<Needed(case)[k]>>, case.given, Defaults)[1]
    /\ ValidSetting(Needed(case)[k], ParseResult(Needed(case), case.given, Defaults)[k])
\* a request is refused because of one of its names alone
Local == case.op = "ctor" \/ (Accepted(case) <=> \A k \in 1..Len(Needed(case)) : ~ParseRefused(<<Needed(case)[k]>>, case.given, Defaults))
\* what nobody asked for does not matter
Foreign == case.op = "ctor" \/ LET g == [n \in DOMAIN case.given \ ParseRest(Needed(case), case.given) |-> case.given[n]] IN
           /\ Accepted(case) <=> ~ParseRefused(Needed(case), g, Defaults)
           /\ Accepted(case) => ParseResult(Needed(case), case.given, Defaults) = ParseResult(Needed(case), g, Defaults)
\* constructors: the verdict on the arguments does not depend on the order of the coordinates, on the layout of a vector or
\* on transposition; a symmetric matrix is accepted when its quadratic form is nowhere negative
CV(k, a) == CtorVerdict(Ctor(k, a))
Mirror(a) == [a EXCEPT !.v = <<a.v[4], a.v[3], a.v[2], a.v[1]>>]
Trans(a) == [a EXCEPT !.v = <<a.v[1], a.v[3], a.v[2], a.v[4]>>]
Grow(a) == [a EXCEPT !.v = <<FAdd(a.v[1], One), a.v[2], a.v[3], FAdd(a.v[4], One)>>]
IsReal(a) == IF a.t = "arr" THEN a.kind = "real" ELSE FALSE
Square2(a) == IF IsReal(a) THEN a.sh = <<2, 2>> ELSE FALSE
Forms(a) == {[a EXCEPT !.sh = s] : s \in {<<Len(a.v)>>, <<Len(a.v), 1>>, <<1, Len(a.v)>>}}
Constructors == case.op = "ctor" =>
  LET v == CtorVerdict(case)  a == case.args IN
  /\ v \in {"in", "out"}
  /\ (case.kind = "e" /\ Len(a) = 1) => IF Square2(a[1]) THEN
        /\ CV("e", <<Mirror(a[1])>>) = v /\ CV("e", <<Trans(a[1])>>) = v
        /\ (v = "in" => CV("e", <<Grow(a[1])>>) = "in")
        /\ (v = "in" => FiniteA(a[1]) /\ \A x, y \in -3..3 : LET l == <<I(x), I(y)>> IN FLe(FNeg(FTimes(20, E6)), Quad(RowsA(a[1]), l)))
        /\ (v = "out" => ~FiniteA(a[1]) \/ a[1].v[2] /= a[1].v[3] \/ \E x, y \in -3..3 : LET l == <<I(x), I(y)>> IN FLt(Quad(RowsA(a[1]), l), Zero))
     ELSE TRUE
  /\ (Len(a) = 2 /\ IsReal(a[1])) => (IF Len(a[1].v) > 0 /\ IsVecA(a[1]) THEN \A f \in Forms(a[1]) : CV(case.kind, <<f, a[2]>>) = v ELSE TRUE)
  /\ (case.kind = "e" /\ Len(a) = 2 /\ v = "in") => Len(a[1].v) = a[2].sh[1] /\ CV("e", <<a[2]>>) = "in"
  /\ (case.kind = "e" /\ Len(a) = 1 /\ v = "in") => CV("e", <<Ar(<<a[1].sh[1]>>, ZeroVec(a[1].sh[1])), a[1]>>) = "in"
=============================================================================
