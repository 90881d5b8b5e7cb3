------------------------------- MODULE MC_EllCalc -------------------------------
(***************************************************************************)
(* The ellipsoidal calculus on every small ellipsoid of the line and the   *)
(* plane.  For each question the exact answer is computed from the         *)
(* textbook formula; the specification has to accept it, to reject it when *)
(* it is perturbed, and to agree with the support function, which is what  *)
(* an ellipsoid means.  The same questions are written out for the real    *)
(* library.                                                                *)
(***************************************************************************)
EXTENDS EllCalc, Json, IOUtils, SequencesExt
I(n) == FInt(n)
V(a, b) == <<I(a), I(b)>>
M2(a, b, d) == <<<<I(a), I(b)>>, <<I(b), I(d)>>>>
Q1 == {<<<<I(a)>>>> : a \in 0..2}
Q2 == {M2(x[1], x[2], x[3]) : x \in {y \in (0..2) \X {-1, 0, 1} \X (0..2) : y[1] * y[3] >= y[2] * y[2]}}
Q2d == {M2(x[1], 0, x[2]) : x \in {0, 1, 4} \X {0, 1, 4}}       \* exact square roots
Q3 == {<<<<I(a), Zero, Zero>>, <<Zero, I(b), I(h)>>, <<Zero, I(h), I(d)>>>> :
         a \in {0, 2}, b \in {1, 2}, d \in {0, 1}, h \in {0}} \cup {<<<<I(2), I(1), Zero>>, <<I(1), I(2), I(1)>>, <<Zero, I(1), I(2)>>>>,
         <<<<I(1), I(1), Zero>>, <<I(1), I(1), Zero>>, <<Zero, Zero, I(1)>>>>}
C1 == {<<Zero>>, <<I(-1)>>}
C2 == {V(0, 0), V(1, -1)}
El(c, q) == [c |-> c, q |-> q]
E1s == {El(c, q) : c \in C1, q \in Q1}
E2s == {El(c, q) : c \in C2, q \in Q2}
Ells == E1s \cup E2s
Dirs(n) == IF n = 1 THEN {<<I(k)>> : k \in {-2, -1, 1, 3}}
           ELSE {V(a, b) : a, b \in -2..2} \ {V(0, 0)}
Wide(n) == IF n = 1 THEN Dirs(1) ELSE {V(a, b) : a, b \in -4..4} \ {V(0, 0)}
Eye(n, k) == [j \in 1..n |-> IF j = k THEN One ELSE Zero]
Hs(E, l) == FAdd(Dot(E.c, l), FSqrt(Width2(E, l)))                 \* support function
Pt(E, l) == LET w == FSqrt(Width2(E, l)) IN
            IF w = Zero THEN E.c ELSE VAdd(E.c, VScale(FDiv(One, w), MatVec(E.q, l)))
Bump == FScaled(10, 1)                                              \* a thousandth
Part == IOEnv.PART

(* ---------------------------------------------------------------- cases - *)
Rho == UNION {{[op |-> "rho", E |-> E, l |-> l] : l \in Dirs(Dim(E)) \cup {ZeroVec(Dim(E))}} : E \in Ells}
PairQ == {<<a, b>> : a, b \in Q1} \cup {<<a, b>> : a, b \in Q2}
SumDirs(n) == IF n = 1 THEN {<<One>>, <<I(-2)>>}
              ELSE {V(1, 0), V(-1, 2)} \cup (IF IOEnv.TIER = "quick" THEN {} ELSE {V(1, 1), V(1, -1), V(2, 1)})
Ext == UNION {{[op |-> "ext", A |-> El(IF Len(p[1]) = 1 THEN <<One>> ELSE V(1, 2), p[1]), B |-> El(ZeroVec(Len(p[2])), p[2]), l |-> l]
                 : l \in SumDirs(Len(p[1]))} : p \in PairQ}
Intl == UNION {{[op |-> "int", A |-> El(V(1, 2), a), B |-> El(V(0, 0), b), l |-> l] : l \in SumDirs(2)} : a, b \in Q2d}
Points(n) == IF n = 1 THEN {<<FMul(Half, I(k))>> : k \in -6..4}
             ELSE {<<FMul(Half, I(a)), FMul(Half, I(b))>> : a, b \in -4..4}
Member == {[op |-> "member", E |-> E, x |-> Points(Dim(E)), mode |-> "u"] : E \in Ells}
Bigs == {[op |-> "bigger", A |-> El(ZeroVec(Len(p[1])), p[1]), B |-> El(ZeroVec(Len(p[2])), p[2])] : p \in PairQ}
PolC(n) == IF n = 1 THEN {<<Zero>>, <<Half>>, <<I(2)>>} ELSE {V(0, 0), <<Half, Zero>>, <<Half, FNeg(Half)>>, V(2, 1)}
Pol == UNION {{[op |-> "polar", E |-> El(c, q)] : c \in PolC(Len(q))} : q \in Q1 \cup Q2}
Bases == {<<V(1, 0)>>, <<V(0, -2)>>, <<V(3, 4)>>, <<V(0, 1), V(1, 0)>>, <<V(3, 4), V(-4, 3)>>, <<V(1, 1), V(1, -1)>>,
          <<V(1, 1), V(1, 0)>>, <<V(1, 0), V(0, 1), V(1, 1)>>, <<<<One>>>>}
Proj == {[op |-> "proj", E |-> E, B |-> B] : E \in E2s, B \in Bases}
Chars == {[op |-> "chars", E |-> El(ZeroVec(Len(q)), q)] : q \in Q1 \cup Q2 \cup Q3}
Bound == {[op |-> "bound", E |-> E, n |-> n] : E \in E2s, n \in {3, 4, 5, 8, 12}}
Neg == {[op |-> "neg", E |-> E] : E \in Ells}
All == CASE Part = "support" -> Rho [] Part = "ext" -> Ext [] Part = "int" -> Intl
         [] Part = "member" -> Member [] Part = "bigger" -> Bigs [] Part = "polar" -> Pol
         [] Part = "proj" -> Proj [] Part = "chars" -> Chars [] Part = "bound" -> Bound [] Part = "neg" -> Neg
Cases == TLCEval(All)
CaseSeq == TLCEval(SetToSeq(Cases))
ASSUME ndJsonSerialize(IOEnv.OUT, CaseSeq)
\* the cases are split into groups, so that several workers share them
VARIABLE case
Groups == 8
Init == case \in {[op |-> "group", g |-> g] : g \in 0..(Groups - 1)}
Next == /\ case.op = "group"
        /\ \E k \in 1..Len(CaseSeq) : k % Groups = case.g /\ case' = CaseSeq[k]

(* ----------------------------------------------------------------- laws - *)
RhoEv(E, l, s, x) == [op |-> "rho", err |-> "", ells |-> <<E>>, dirs |-> <<l>>, eshape |-> <<1>>, dshape |-> <<Dim(E), 1>>,
                      sup |-> <<s>>, supshape |-> <<1>>, bp |-> <<x>>, bpshape |-> <<Dim(E), 1>>, kept |-> TRUE]
Support == case.op = "rho" =>
  LET E == case.E  l == case.l  s == Hs(E, l)  x == Pt(E, l)  off == VScale(Bump, l) IN
  /\ Judge(RhoEv(E, l, s, x)) = {}
  /\ Judge(RhoEv(E, l, FAdd(s, Bump), x)) /= {} /\ Judge(RhoEv(E, l, FSub(s, Bump), x)) /= {}
  /\ l = ZeroVec(Dim(E)) \/ (Judge(RhoEv(E, l, s, VAdd(x, off))) /= {} /\ Judge(RhoEv(E, l, s, VSub(x, off))) /= {})
  /\ \A m \in Dirs(Dim(E)) : /\ FLe(Hs(E, VAdd(l, m)), FAdd(FAdd(s, Hs(E, m)), E9))     \* subadditive
                             /\ FLe(Dot(x, m), FAdd(Hs(E, m), E9))                     \* x belongs to E
  /\ FNear(Hs(E, VScale(I(3), l)), FMul(I(3), s), E8)                                \* positively homogeneous
\* the known optimal external and internal approximations of a sum
SumEv(kind, A, B, l, P, tests) == [op |-> "mink", kind |-> kind, ells |-> <<A, B>>, tols |-> <<E7, E7>>, dirs |-> <<l>>,
                                   tests |-> tests, res |-> <<P>>, err |-> "", kept |-> TRUE]
ExtForm(A, B, l) == LET p == FSqrt(Width2(A, l))  r == FSqrt(Width2(B, l)) IN
  El(VAdd(A.c, B.c), MScale(FAdd(p, r), MAdd(MScale(FDiv(One, p), A.q), MScale(FDiv(One, r), B.q))))
TestSeq(n) == IF n = 1 THEN <<<<One>>, <<I(-1)>>>> ELSE <<V(0, 1), V(1, 1), V(1, -1), V(3, 1)>>
External == case.op = "ext" =>
  LET A == case.A  B == case.B  l == case.l  n == Dim(A) IN
  (FLt(Zero, Width2(A, l)) /\ FLt(Zero, Width2(B, l))) =>
  LET P == ExtForm(A, B, l) IN
  /\ Judge(SumEv("ext", A, B, l, P, TestSeq(n))) = {}
  /\ Judge(SumEv("ext", A, B, l, El(P.c, MScale(FSub(One, Bump), P.q)), TestSeq(n))) /= {}      \* too small
  /\ Judge(SumEv("ext", A, B, l, El(P.c, MScale(FAdd(One, Bump), P.q)), TestSeq(n))) /= {}      \* not touching
  /\ Judge(SumEv("ext", A, B, l, El(VAdd(P.c, VScale(Bump, l)), P.q), TestSeq(n))) /= {}
  /\ \A m \in Dirs(n) : FLe(Hs(A, m), FAdd(FSub(Hs(P, m), Hs(B, m)), E7))                \* A + B inside P
SqrtDiag(q) == MatMul(Ident(2), <<<<FSqrt(q[1][1]), Zero>>, <<Zero, FSqrt(q[2][2])>>>>)
\* rotation of the plane taking the direction of v to that of u
Turn(u, v) == LET k == FDiv(One, FMul(FSqrt(Norm2(u)), FSqrt(Norm2(v))))
                  c == FMul(k, Dot(u, v))  s == FMul(k, FSub(FMul(u[2], v[1]), FMul(u[1], v[2])))
              IN <<<<c, FNeg(s)>>, <<s, c>>>>
IntForm(A, B, l) == LET a == SqrtDiag(A.q)  b == SqrtDiag(B.q)  u == MatVec(a, l)  v == MatVec(b, l)
                        sb == IF v = V(0, 0) THEN b ELSE MatMul(Turn(u, v), b)
                        s == MAdd(a, sb)
                    IN El(VAdd(A.c, B.c), MatMul(Transp(s), s))
Internal == case.op = "int" =>
  LET A == case.A  B == case.B  l == case.l IN
  FLt(Zero, Width2(A, l)) =>
  LET P == IntForm(A, B, l) IN
  /\ Judge(SumEv("int", A, B, l, P, TestSeq(2))) = {}
  /\ Judge(SumEv("int", A, B, l, El(P.c, MScale(FSub(One, Bump), P.q)), TestSeq(2))) /= {}
  /\ Judge(SumEv("int", A, B, l, El(P.c, MScale(FAdd(One, Bump), P.q)), TestSeq(2))) /= {}
  /\ \A m \in Dirs(2) : FLe(FSub(Hs(P, m), Hs(B, m)), FAdd(Hs(A, m), E7))                \* P inside A + B
\* membership: answers agree with the support function
Adj(q) == IF Len(q) = 1 THEN <<<<One>>>> ELSE <<<<q[2][2], FNeg(q[1][2])>>, <<FNeg(q[2][1]), q[1][1]>>>>
Tol == FScaled(1, 1)
Inside == case.op = "member" => \A x \in case.x :
  LET E == case.E  d == VSub(x, E.c)  v == Membership(E, Tol, x)
      ds == Wide(Dim(E)) \cup {MatVec(Adj(E.q), d)}
      slack(l) == FMul(FScaled(300, 1), FSqrt(Norm2(l))) IN
  /\ v \in {"in", "out"} => (v = "in") = (\A l \in ds : FLe(Dot(d, l), FAdd(FSqrt(Width2(E, l)), slack(l))))
  /\ d = ZeroVec(Dim(E)) => v = "in"
  /\ Membership(El(VNeg(E.c), E.q), Tol, VNeg(x)) = v                                   \* symmetric under reflection
  /\ \A k \in {I(0), Half} : v = "in" => Membership(E, Tol, VAdd(E.c, VScale(k, d))) /= "out"   \* convex
\* inclusion: an order, agreeing with the support functions
Inclusions == case.op = "bigger" =>
  LET a == case.A.q  b == case.B.q  n == Len(a)  v == Bigger(a, b, E7)
      fits == \A l \in Wide(n) : FLe(Quad(b, l), FAdd(Quad(a, l), E6)) IN
  /\ v /= "any" /\ (v = "t") = fits
  /\ Bigger(a, a, E7) = "t"
  /\ (v = "t" /\ Bigger(b, a, E7) = "t") => a = b
  /\ \A c \in (IF n = 1 THEN Q1 ELSE Q2) : (v = "t" /\ Bigger(b, c, E7) = "t") => Bigger(a, c, E7) = "t"
\* polar sets: the formula, involution, and duality with the support function
PolForm(E) == LET M == MSub(E.q, Outer(E.c, E.c))
                  d == Det(M)  w == MScale(FDiv(One, d), Adj(M))
                  c == VNeg(MatVec(w, E.c))
              IN El(c, MScale(FSub(One, Dot(E.c, c)), w))
PolEv(E, err, res) == [op |-> "polar", ells |-> <<E>>, eshape |-> << >>, res |-> res, rshape |-> << >>, err |-> err, kept |-> TRUE]
Polars == case.op = "polar" =>
  LET E == case.E  v == IF Full(E) THEN OriginInside(E) ELSE "out" IN
  /\ v = "in" =>
       LET P == PolForm(E) IN
       /\ Judge(PolEv(E, "", <<P>>)) = {} /\ Judge(PolEv(P, "", <<E>>)) = {}            \* involution
       /\ Judge(PolEv(E, "", <<El(VAdd(P.c, VScale(Bump, Eye(Dim(E), 1))), P.q)>>)) /= {}
       /\ Judge(PolEv(E, "", <<El(P.c, MScale(FAdd(One, Bump), P.q))>>)) /= {}
       /\ Judge(PolEv(E, "lib:degenerateEllipsoid", << >>)) /= {}
       /\ \A l \in Dirs(Dim(E)) : LET s == Hs(E, l) IN                            \* l / s lies on the border of the polar
            FLt(Zero, s) /\ LET d == VSub(VScale(FDiv(One, s), l), P.c) IN
            FNear(Det(Border(P.q, d, One)), Zero, E7)
  /\ v = "out" => Judge(PolEv(E, "lib:degenerateEllipsoid", << >>)) = {} /\ Judge(PolEv(E, "", <<E>>)) /= {}
  /\ (Full(E) /\ v /= "edge") => (v = "in") = (Membership(E, Tol, ZeroVec(Dim(E))) = "in")
\* projections: the support function of a projection is that of the set
Unit(B) == [k \in 1..Len(B) |-> VScale(FDiv(One, FSqrt(Norm2(B[k]))), B[k])]
ProjForm(E, U) == El([i \in 1..Len(U) |-> Dot(U[i], E.c)], [i \in 1..Len(U) |-> [j \in 1..Len(U) |-> Dot(U[i], MatVec(E.q, U[j]))]])
ProjEv(E, B, P, err, after) == [op |-> "proj", ells |-> <<E>>, basis |-> B, inplace |-> FALSE, after |-> <<after>>,
                                res |-> IF err = "" THEN <<P>> ELSE << >>, rshape |-> <<1>>, eshape |-> <<1>>, rdim |-> <<Len(B)>>, err |-> err, kept |-> TRUE]
RECURSIVE Comb(_, _, _)
Comb(U, m, n) == IF n = 0 THEN ZeroVec(Len(U[1])) ELSE VAdd(Comb(U, m, n - 1), VScale(m[n], U[n]))
Projections == case.op = "proj" =>
  LET E == case.E  B == case.B
      bad == Len(B) > Len(B[1]) \/ Len(B[1]) /= 2 \/ ClearlySkew(B) IN
  /\ bad => Judge(ProjEv(E, B, E, "lib:wrongInput", E)) = {} /\ Judge(ProjEv(E, B, E, "", E)) /= {}
  /\ ~bad =>
       LET U == Unit(B)  P == ProjForm(E, U) IN
       /\ Judge(ProjEv(E, B, P, "", E)) = {}
       /\ Judge(ProjEv(E, B, P, "", El(VAdd(E.c, E.c), E.q))) = {} <=> E.c = V(0, 0)
       /\ Judge(ProjEv(E, B, P, "lib:wrongInput", E)) /= {}
       /\ Judge(ProjEv(E, B, El(VAdd(P.c, VScale(Bump, Eye(Len(B), 1))), P.q), "", E)) /= {}
       /\ Judge(ProjEv(E, B, El(P.c, MAdd(P.q, MScale(Bump, Ident(Len(B))))), "", E)) /= {}
       /\ \A m \in Dirs(Len(B)) : FNear(Hs(P, m), Hs(E, Comb(U, m, Len(U))), E8)
\* characteristics: eigenvalues of small matrices by the quadratic formula
Root(q, sg) == IF Len(q) = 1 THEN q[1][1]
               ELSE LET t == TraceOf(q)  d == Det(q)  r == FSqrt(FSub(FSq(t), FTimes(4, d)))
                    IN FMul(Half, IF sg = 1 THEN FAdd(t, r) ELSE FSub(t, r))
Measures == case.op = "chars" =>
  LET q == case.E.q  n == Len(q)  d == Det(q) IN
  /\ n < 3 => LET lo == Root(q, -1)  hi == Root(q, 1) IN
       /\ MinEigOk(q, lo) /\ MaxEigOk(q, hi)
       /\ ~MinEigOk(q, FAdd(lo, Bump)) /\ ~MinEigOk(q, FSub(lo, Bump))
       /\ ~MaxEigOk(q, FAdd(hi, Bump)) /\ ~MaxEigOk(q, FSub(hi, Bump))
       /\ DegVerdict(case.E, Tol) = (IF lo = Zero \/ d = Zero THEN "t" ELSE "f")
       /\ n = 2 => FNear(FMul(lo, hi), d, E8) /\ FNear(FAdd(lo, hi), TraceOf(q), E8)
  /\ (RankPSD(Scaled(q), E9) = n) = Full(case.E)
  /\ (RankPSD(Scaled(q), E9) = 0) = (q = ZeroMat(n, n))
  /\ LET ball == CASE n = 1 -> Two [] n = 2 -> Pi [] OTHER -> FMul(FDiv(I(4), I(3)), Pi)
         vol == FMul(ball, FSqrt(d)) IN
     /\ VolumeOk(case.E, vol) /\ ~VolumeOk(case.E, FAdd(vol, FScaled(100, 1)))
     /\ FLt(FScaled(100, 1), vol) => ~VolumeOk(case.E, FSub(vol, FScaled(100, 1)))
\* sampled boundaries
Angle(k, n) == FDivInt(FMul(I(2 * k), Pi), n)
Circle(k, n) == LET t == Angle(k, n)  u == IF FLe(t, Pi) THEN t ELSE FSub(t, FTimes(2, Pi)) IN <<FCos(u), FSin(u)>>
BPts(E, n) == TLCEval([k \in 1..n |-> Pt(E, Circle(k - 1, n))])
Loop(n) == [k \in 1..n |-> <<k - 1, k % n>>]
BEv(E, n, pts, cnt, grid) == [op |-> "boundary", dim |-> 2, num |-> n, den |-> 1, count |-> cnt, distinct |-> TRUE, pts |-> pts,
                              grid |-> grid, ell |-> E, err |-> "", kept |-> TRUE]
Boundary == case.op = "bound" =>
  LET E == case.E  n == case.n  p == BPts(E, n) IN
  /\ Judge(BEv(E, n, p, n, Loop(n))) = {}
  /\ Judge(BEv(E, n, p, n + 1, Loop(n))) /= {} /\ Judge(BEv(E, n, p, n, Loop(n + 1))) /= {}
  /\ Judge(BEv(E, n, p, n, [Loop(n) EXCEPT ![n] = <<0, n - 1>>])) /= {}
  /\ Judge(BEv(E, n, [p EXCEPT ![1] = VAdd(E.c, VScale(FAdd(One, Bump), VSub(p[1], E.c)))], n, << >>)) /= {} \/ p[1] = E.c
  /\ Full(E) => Judge(BEv(E, n, [p EXCEPT ![1] = VAdd(E.c, VScale(FSub(One, Bump), VSub(p[1], E.c)))], n, << >>)) /= {}
  /\ \A k \in 1..n : Membership(E, Tol, p[k]) /= "out" /\ FNear(Norm2(Circle(k - 1, n)), One, E9)
Reflected == case.op = "neg" =>
  LET E == case.E  N == El(VNeg(E.c), E.q)
      ev(R_) == [op |-> "neg", ells |-> <<E>>, eshape |-> <<1>>, res |-> <<R_>>, rshape |-> <<1>>, err |-> "", kept |-> TRUE] IN
  /\ Judge(ev(N)) = {} /\ (Judge(ev(E)) = {} <=> E.c = ZeroVec(Dim(E)))
  /\ \A l \in Dirs(Dim(E)) : Hs(N, l) = Hs(E, VNeg(l))
Icosahedral == SphereCount(42, 1) = 42 /\ SphereCount(42, 43) = 162 /\ SphereCount(42, 162) = 162 /\ SphereCount(42, 163) = 642
=============================================================================
