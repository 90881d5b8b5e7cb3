---------------------------------- MODULE Hyper ----------------------------------
(***************************************************************************)
(* Hyperplanes <n, x> = s (P28).  A plane is [n, s, tol].  Points may have *)
(* infinite coordinates: such a coordinate only matters where the normal   *)
(* is not zero.                                                            *)
(***************************************************************************)
EXTENDS Fx
RC(cond, why) == IF cond THEN {} ELSE {why}
Fin(x) == Len(x) = 6
HasNan(v) == \E k \in 1..Len(v) : v[k] = <<1>>
FinPart(v) == TLCEval([k \in 1..Len(v) |-> IF Fin(v[k]) THEN v[k] ELSE Zero])
\* "t", "f", or "any" next to the tolerance
Below(d, tol) == IF FLe(FMul(<<0, 0, 2, 1, 0, 0>>, d), tol) \/ FLe(d, E10) THEN "t"
                 ELSE IF FLe(FMul(<<0, 0, 2, 1, 0, 0>>, tol), d) THEN "f" ELSE "any"
On(h, x) ==
  IF \E k \in 1..Len(x) : ~Fin(x[k]) /\ h.n[k] /= Zero THEN "f"
  ELSE Below(FAbs(FSub(Dot(h.n, FinPart(x)), h.s)), h.tol)
Unit(n) == VScale(FDiv(One, FSqrt(Norm2(n))), n)
Collinear(g, h) ==
  IF Len(g.n) /= Len(h.n) THEN "f"
  ELSE LET u == Unit(g.n)  v == Unit(h.n)
           d == FMin(MaxAbs(VSub(u, v)), MaxAbs(VAdd(u, v)))
           a == Below(d, g.tol)  b == Below(d, h.tol)
       IN IF a = b THEN a ELSE "any"
Agree(w, x) == w = "any" \/ x = (w = "t")
Pick(s, k) == IF Len(s) = 1 THEN s[1] ELSE s[k]
Same3(s) == \A j, k \in 1..Len(s) : Len(s[j].n) = Len(s[k].n)

\* a dimension-zero plane: one coordinate, normal and shift within the tolerance
Nothing(h) == Len(h.n) = 1 /\ FLe(FAbs(h.n[1]), h.tol) /\ FLe(FAbs(h.s), h.tol)
Dim(h) == IF Nothing(h) THEN 0 ELSE Len(h.n)
ZeroNormal(h) == \A k \in 1..Len(h.n) : h.n[k] = Zero

JudgeContains(e) ==
  LET m == Len(e.hyps)  K == Len(e.pts)  dim == Len(e.hyps[1].n)
      refuse == ~Same3(e.hyps) \/ (\E k \in 1..K : HasNan(e.pts[k]))
                \/ (\E k \in 1..K : Len(e.pts[k]) /= dim) \/ (m > 1 /\ K > 1 /\ m /= K)
      n == IF m > K THEN m ELSE K
  IN IF refuse THEN RC(e.err \in {"lib:wrongInput", "lib:wrongSizes"}, "membership: wrong arguments were not refused")
     ELSE IF e.err /= "" THEN {"membership: unexpected error " \o e.err}
     ELSE RC(Len(e.ans) = n, "membership: wrong number of answers")
          \cup RC(Len(e.ans) /= n \/ \A k \in 1..n : Agree(On(Pick(e.hyps, k), Pick(e.pts, k)), e.ans[k]), "membership: wrong answer")
          \cup RC(e.ash = (IF K = 1 THEN e.hsh ELSE e.xsh), "membership: wrong shape of the answer")
          \cup RC(e.kept, "membership: the arguments were modified")
JudgeParallel(e) ==
  LET m == Len(e.first)  n == Len(e.second)  N == IF m > n THEN m ELSE n
      refuse == m /= 1 /\ n /= 1 /\ e.sh1 /= e.sh2
  IN IF refuse THEN RC(e.err \in {"lib:wrongInput", "lib:wrongSizes"}, "parallelism: mismatched arrays were not refused")
     ELSE IF e.err /= "" THEN {"parallelism: unexpected error " \o e.err}
     ELSE RC(Len(e.ans) = N /\ \A k \in 1..N : Agree(Collinear(Pick(e.first, k), Pick(e.second, k)), e.ans[k]), "parallelism: wrong answer")
          \cup RC(e.rev = e.ans \/ \E k \in 1..N : Pick(e.first, k).tol /= Pick(e.second, k).tol, "parallelism: depends on the order")
          \cup RC(N = 1 \/ e.ash = (IF m > 1 THEN e.sh1 ELSE e.sh2), "parallelism: wrong shape of the answer")
          \cup RC(e.kept, "parallelism: the planes were modified")
NormalForm(h) == LET r == FDiv(One, FSqrt(Norm2(h.n)))  i == IF FNonNeg(h.s) THEN r ELSE FNeg(r)
                 IN [n |-> VScale(i, h.n), s |-> FMul(i, h.s)]
\* [n, s] is the description of the same plane with unit normal and nonnegative shift
Describes(n, s, h) == /\ Len(n) = Len(h.n) /\ Len(s) = 1 /\ FNear(Norm2(n), One, E9) /\ FNonNeg(s[1])
                      /\ LET c == Dot(h.n, n) IN VClose(VScale(c, n), h.n, E8) /\ FClose(FMul(c, s[1]), h.s, E8)
\* one plane and everything that describes it
JudgePlane(e) ==
  LET h == e.h IN
  IF e.bad THEN RC(e.err = "lib:wrongInput", "hyperplane: wrong parameters were not refused")
  ELSE IF e.err /= "" THEN {"hyperplane: unexpected error " \o e.err}
  ELSE RC(e.pn = h.n /\ e.ps = h.s, "hyperplane: parameters differ from the arguments")
       \cup RC(e.dn = h.n /\ e.ds = h.s, "hyperplane: double differs from the arguments")
       \cup RC(e.tol = h.tol, "hyperplane: wrong tolerance")
       \cup RC(e.dim = Dim(h), "hyperplane: wrong dimension")
       \cup RC(e.empty = Nothing(h), "hyperplane: wrong emptiness")
       \cup RC(e.negn = VNeg(h.n) /\ e.negs = FNeg(h.s), "hyperplane: wrong negation")
       \cup RC(e.neg2n = h.n /\ e.neg2s = h.s, "hyperplane: double negation differs")
       \cup RC(e.kept, "hyperplane: a query changed it")
       \cup (IF Nothing(h) THEN RC(e.tn = << >> /\ e.ts = << >>, "hyperplane: wrong description of the empty one")
             ELSE IF ZeroNormal(h) THEN {}
             ELSE RC(Describes(e.tn, e.ts, h), "hyperplane: wrong description")
                  \cup RC(e.bn = e.tn /\ <<e.bs>> = e.ts, "hyperplane: description does not describe it")
                  \cup RC(e.btol = h.tol, "hyperplane: description lost the tolerance"))
Judge(e) == CASE e.op = "contains" -> JudgeContains(e) [] e.op = "parallel" -> JudgeParallel(e) [] e.op = "plane" -> JudgePlane(e)
=============================================================================
