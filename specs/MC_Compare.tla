------------------------------ MODULE MC_Compare ------------------------------
(***************************************************************************)
(* Every pair of short arrays and of small trees: laws of the comparison,  *)
(* and the cases to be tried on the real functions.                        *)
(***************************************************************************)
EXTENDS Compare, Json, IOUtils, SequencesExt
Q == <<0, 0, 2500, 0, 0, 0>>
Nums == {Nan, PInf, MInf, Zero, Half, One, FNeg(One), FAdd(One, Q)}
Few == {Nan, Zero, One, FAdd(One, Q)}
Abs == {Zero, Half, One}
Rel == {<< >>, <<Zero>>, <<Half>>, <<One>>}
ArrPairs == {<<<<a>>, <<b>>>> : a, b \in Nums} \cup {<<<<a, b>>, <<c, d>>>> : a, b, c, d \in Few} \cup {<< << >>, << >> >>}
ArrCases == {[op |-> "arel", l |-> p[1], r |-> p[2], at |-> a, rt |-> t] : p \in ArrPairs, a \in Abs, t \in Rel}

N(ty, x) == [t |-> "num", ty |-> ty, v |-> <<x>>]
Arr(v) == [t |-> "arr", ty |-> "array f", sh |-> <<Len(v)>>, v |-> v]
D1(k, v) == [t |-> "dict", ks |-> <<k>>, vs |-> <<v>>]
D2(k, v, l, w) == [t |-> "dict", ks |-> <<k, l>>, vs |-> <<v, w>>]
Empty == [t |-> "dict", ks |-> << >>, vs |-> << >>]
L(s) == [t |-> "list", l |-> s]
Leaves == {N("float", One), N("float", FAdd(One, Q)), N("float", Two), N("int", One), N("int", Two), N("bool", One), N("float", Nan), [t |-> "none"], [t |-> "str", s |-> "a"],
           [t |-> "str", s |-> "b"], Arr(<<One>>), Arr(<<FAdd(One, Q)>>), Arr(<<One, One>>), L(<<N("float", One)>>), L(<<N("float", FAdd(One, Q))>>),
           D1("a", N("float", One)), D1("a", N("float", FAdd(One, Q))), D1("b", N("float", One)), Empty}
Dicts == {Empty} \cup {D1("a", v) : v \in Leaves} \cup {D1("b", v) : v \in Leaves}
         \cup {D2("a", v, "b", w) : v \in {N("float", One), N("int", One), Arr(<<One>>)}, w \in Leaves}
         \cup {D2("b", w, "a", v) : v \in {N("float", One), N("float", FAdd(One, Q))}, w \in Leaves}
List(s) == [t |-> "dicts", sh |-> <<Len(s)>>, l |-> s]
Small == {D1("a", N("float", One)), D1("a", N("float", FAdd(One, Q))), Empty}
Lists == {List(<<a>>) : a \in Small} \cup {List(<<a, b>>) : a, b \in Small}
TreePairs == Dicts \X Dicts
DictCases == {[op |-> "dicts", x |-> p[1], y |-> p[2], at |-> a, rt |-> t] : p \in TreePairs, a \in {Zero, Q}, t \in {<< >>}}
             \cup {[op |-> "dicts", x |-> x, y |-> y, at |-> Zero, rt |-> <<Half>>] : x, y \in {D1("a", v) : v \in Leaves}}
             \cup {[op |-> "dicts", x |-> x, y |-> y, at |-> a, rt |-> << >>] : x, y \in Lists, a \in {Zero, Q}}
\* small ellipsoids (given by the root of their shape) and planes, some of them a fraction or a multiple
\* of the tolerance away from each other
T4 == FMul(FScaled(4000, 1), E6)     \* 0.4 of the tolerance
T40 == FTimes(40, E6)
I(n) == FInt(n)
S1 == <<E6, E6, I(200), I(200)>>
Ob(c, r, s) == [c |-> c, q |-> MatMul(r, r), root |-> r, s |-> s]
Ells1 == {Ob(<<c>>, <<<<r>>>>, S1) : c \in {Zero, One, FAdd(One, T4), FAdd(One, T40)}, r \in {Zero, One, FAdd(One, T4), FAdd(One, T40), Two}}
M2(a, b, d) == <<<<I(a), I(b)>>, <<I(b), I(d)>>>>
Ells2 == {Ob(c, r, s) : c \in {<<Zero, Zero>>, <<One, Zero>>}, r \in {M2(1, 0, 1), M2(1, 0, 2), M2(2, 0, 1), M2(0, 0, 1), M2(2, 1, 2), M2(2, -1, 2)},
                      s \in {S1, <<E6, E6, I(100), I(200)>>}}
         \cup {Ob(<<Zero, Zero>>, M2(1, 0, 1), <<E4, E6, I(200), I(200)>>), Ob(<<Zero, FTimes(30, E6)>>, M2(1, 0, 1), <<E4, E6, I(200), I(200)>>)}
Pl(n, s, t) == [c |-> n, q |-> <<<<s>>>>, root |-> << >>, s |-> <<t, E6>>]
Planes1 == {Pl(<<n>>, s, E6) : n \in {One, I(-1), Two}, s \in {Zero, One, I(-1), Two}} \cup {Pl(<<Zero>>, Zero, E6)}
Planes2 == {Pl(n, s, t) : n \in {<<One, Zero>>, <<I(-1), Zero>>, <<Zero, One>>, <<One, One>>, <<Two, Two>>, <<I(-2), I(-2)>>, <<One, T40>>, <<One, T4>>},
                        s \in {Zero, One, Two, I(-2)}, t \in {E6}} \cup {Pl(<<One, T40>>, One, E4)}
\* planes through the origin with opposite normals are left open
OpenPair(x, y) == /\ Len(x.c) = Len(y.c) /\ FLe(FAbs(x.q[1][1]), E10) /\ FLe(FAbs(y.q[1][1]), E10) /\ FLt(Dot(x.c, y.c), Zero)
Eq(k, x, y, p) == [op |-> "equal", kind |-> k, a |-> x, b |-> y, props |-> p]
EqCases == {Eq("e", x, y, FALSE) : x, y \in Ells1} \cup {Eq("e", x, y, p) : x, y \in Ells2, p \in BOOLEAN}
           \cup {Eq("e", x, y, FALSE) : x \in Ells1, y \in {z \in Ells2 : z.c[1] = Zero}}
           \cup {Eq("h", p[1], p[2], FALSE) : p \in {z \in (Planes1 \X Planes1) \cup (Planes2 \X Planes2) : ~OpenPair(z[1], z[2])}}
           \cup {Eq("h", x, y, TRUE) : x, y \in {Pl(<<One, Zero>>, One, E6), Pl(<<Two, Zero>>, Two, E6), Pl(<<One, Zero>>, One, E4)}}
Parts == IOEnv.PART
Chosen == TLCEval(CASE Parts = "arrays" -> ArrCases [] Parts = "trees" -> DictCases [] Parts = "objects" -> EqCases)
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Chosen))

VARIABLE case
Init == case \in Chosen
Next == UNCHANGED case
Res(c, l, r, at, rt) == AbsRel(l, r, at, rt, "abs", 1)
W(c) == IF c.op = "arel" THEN Res(c, c.l, c.r, c.at, c.rt).eq ELSE SameTree(c.x, c.y, c.at, c.rt)
\* laws
Symmetry == case.op = "equal" \/ IF case.op = "arel" THEN Res(case, case.l, case.r, case.at, case.rt) = Res(case, case.r, case.l, case.at, case.rt)
            ELSE SameTree(case.x, case.y, case.at, case.rt) = SameTree(case.y, case.x, case.at, case.rt)
Reflexive == case.op = "equal" \/ IF case.op = "arel" THEN Res(case, case.l, case.l, case.at, case.rt).eq ELSE SameTree(case.x, case.x, case.at, case.rt)
\* greater tolerances accept more
Monotone == (case.op /= "equal" /\ W(case)) => IF case.op = "arel" THEN \A a \in Abs : FLe(case.at, a) => Res(case, case.l, case.r, a, case.rt).eq
                       ELSE SameTree(case.x, case.y, One, case.rt)
MonotoneRel == (case.op = "arel" /\ case.rt /= << >> /\ W(case)) => \A t \in Rel : (t /= << >> /\ FLe(case.rt[1], t[1])) => Res(case, case.l, case.r, case.at, t).eq
\* without a tolerance only identical values are equal, and the same key set is needed
Exact == (case.op /= "equal" /\ case.at = Zero /\ case.rt \in {<< >>, <<Zero>>}) =>
         IF case.op = "arel" THEN W(case) = (case.l = case.r)
         ELSE (W(case) /\ case.x.t = "dict") => Keys(case.x) = Keys(case.y)
\* the order of the keys does not matter
Reorder(d) == IF d.t = "dict" THEN [t |-> "dict", ks |-> Reverse(d.ks), vs |-> Reverse(d.vs)] ELSE d
KeyOrder == case.op = "dicts" => SameTree(case.x, Reorder(case.y), case.at, case.rt) = W(case)
\* objects: an equivalence as far as the tolerances allow, coarser for greater tolerances, blind to the representation of a plane
V(x, y, at) == PairV([kind |-> case.kind, props |-> case.props], x, y, at, E6)
Other == CASE case.kind = "h" -> {Pl(VScale(f, case.b.c), FMul(f, case.b.q[1][1]), case.b.s[1]) : f \in {Two, Half} \cup (IF case.b.q[1][1] = Zero THEN {} ELSE {I(-3)})}
           [] OTHER -> {}
Objects == case.op = "equal" =>
  LET x == case.a  y == case.b  v == V(x, y, E6) IN
  /\ V(x, x, E6) = "t" /\ V(y, x, E6) = v
  /\ v = "t" => V(x, y, FTimes(3, E6)) = "t"
  /\ V(x, y, E4) = "f" => v = "f"
  /\ case.kind = "e" => RootOk(x) /\ RootOk(y)
  /\ Len(x.c) /= Len(y.c) => v = "f"
  /\ \A z \in Other : V(x, z, E6) = v \/ "any" \in {V(x, z, E6), v}
\* undecided cases are rare: the replay means something
Decided == case.op = "equal" => V(case.a, case.b, E6) /= "any"
=============================================================================
