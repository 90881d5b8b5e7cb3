-------------------------------- MODULE EllCalc --------------------------------
(***************************************************************************)
(* Ellipsoidal calculus.                                                   *)
(*                                                                         *)
(* An ellipsoid is a record [c |-> centre, q |-> shape matrix] and denotes *)
(*     E(c, Q) = { x : <l, x> <= <l, c> + sqrt(l' Q l) for every l }.      *)
(* The operators below state, for every operation of the library, which    *)
(* results are allowed.  They are relations between the recorded arguments *)
(* and the recorded results; none of them repeats the floating point       *)
(* algorithm of the implementation.  Judge(e) is the set of reasons for    *)
(* which the recorded step e is not a step of the specification.           *)
(***************************************************************************)
EXTENDS Fx

Dim(E) == Len(E.c)
WellFormed(E) == IsVec(E.c) /\ IsMat(E.q) /\ HasShape(E.q, Len(E.c), Len(E.c))
Width2(E, l) == Quad(E.q, l)                       \* l' Q l

R(cond, why) == IF cond THEN {} ELSE {why}

\* matrices are scaled to entries of order one before determinants are taken
ScaleOf(q) == LET m == MMaxAbs(q) IN IF FLe(m, E8) THEN One ELSE FDiv(One, m)
Scaled(q) == MScale(ScaleOf(q), q)
\* a full-dimensional ellipsoid (generators keep away from the threshold)
Full(E) == PD(Scaled(E.q), E9)

(* ------------------------------------------------------------ support --- *)
\* s is the support value of E in direction l, x a point of E attaining it
SupportOkFlat(E, l, s, x, strict) ==
  IF ~(IsFx(s) /\ IsVec(x) /\ Len(x) = Dim(E)) THEN {"support: not finite"}
  ELSE LET w2 == Width2(E, l)
           h == FSub(s, Dot(E.c, l))
           y == VSub(x, E.c)
       IN R(FLe(FNeg(E7), h), "support: value below the centre")
          \cup R(FClose(FSq(h), w2, E7), "support: value")
          \cup R(FClose(Dot(x, l), s, E6), "support: boundary point misses the value")
          \cup (IF FLe(w2, E9)
                THEN (IF strict THEN R(VNear(x, E.c, E6), "support: flat direction must give the centre")
                      ELSE R(PSD(MScale(ScaleOf(E.q), Border(E.q, y, One)), E6), "support: boundary point outside the set"))
                ELSE R(VClose(VScale(h, y), MatVec(E.q, l), E6), "support: boundary point outside the set"))

SupportOk(E, l, s, x) == SupportOkFlat(E, l, s, x, TRUE)

\* pairing of ellipsoids and directions in row-major order
Pairs(nE, nD) == IF nE = 1 THEN [j \in 1..nD |-> <<1, j>>]
                 ELSE IF nD = 1 THEN [j \in 1..nE |-> <<j, 1>>]
                 ELSE [j \in 1..nE |-> <<j, j>>]
RhoShape(e) ==   \* documented shapes of the support values
  IF Len(e.ells) = 1
  THEN (IF Len(e.dshape) > 2 THEN e.supshape = Tail(e.dshape) /\ e.bpshape = e.dshape
        ELSE e.bpshape = e.dshape)
  ELSE IF Len(e.dirs) = 1
  THEN e.supshape = e.eshape /\ (Len(e.eshape) > 2 => e.bpshape = <<Len(e.dirs[1])>> \o e.eshape)
  ELSE (Len(e.dshape) > 2 => e.supshape = Tail(e.dshape) /\ e.bpshape = e.dshape)
JudgeRho(e) ==
  IF e.err /= "" THEN {"support: unexpected error " \o e.err}
  ELSE LET pr == Pairs(Len(e.ells), Len(e.dirs)) IN
       IF Len(e.sup) /= Len(pr) \/ Len(e.bp) /= Len(pr) THEN {"support: number of results"}
       ELSE R(RhoShape(e), "support: result shape")
            \cup UNION { SupportOk(e.ells[pr[k][1]], e.dirs[pr[k][2]], e.sup[k], e.bp[k]) : k \in 1..Len(pr) }

(* ----------------------------------------------------- Minkowski sums --- *)
Slack(E, tol, l) == IF Full(E) THEN Zero ELSE FMul(tol, Norm2(l))  \* regularisation of a flat summand
RECURSIVE SumRoots(_, _, _, _)
SumRoots(ells, tols, l, n) ==
  IF n = 0 THEN Zero
  ELSE FAdd(SumRoots(ells, tols, l, n - 1),
            FSqrt(FAdd(Width2(ells[n], l), IF tols = << >> THEN Zero ELSE Slack(ells[n], tols[n], l))))
SumWidth(ells, l) == SumRoots(ells, << >>, l, Len(ells))             \* exact sum
SumWidthReg(ells, tols, l) == SumRoots(ells, tols, l, Len(ells))     \* with regularised flat summands
RECURSIVE SumCentres(_, _)
SumCentres(ells, n) == IF n = 1 THEN ells[1].c ELSE VAdd(SumCentres(ells, n - 1), ells[n].c)

MinkOk(e, k) ==
  LET P == e.res[k]  l == e.dirs[k]  eps == E6 IN
  IF ~WellFormed(P) \/ Dim(P) /= Dim(e.ells[1]) THEN {"sum: malformed result"}
  ELSE LET anyflat == \E j \in 1..Len(e.ells) : ~Full(e.ells[j])
           lo(m) == SumWidth(e.ells, m)
           hi(m) == IF anyflat THEN SumWidthReg(e.ells, e.tols, m) ELSE lo(m)
           w(m) == FSqrt(Width2(P, m))
           nrm(m) == FAdd(One, hi(m))
           tight == FLe(lo(l), FAdd(w(l), FMul(eps, nrm(l)))) /\ FLe(w(l), FAdd(hi(l), FMul(eps, nrm(l))))
       IN R(VClose(P.c, SumCentres(e.ells, Len(e.ells)), E8), "sum: centre")
          \cup R(Symmetric(P.q, E6), "sum: asymmetric shape")
          \cup R(tight, "sum: approximation does not touch the sum along its direction")
          \cup UNION { LET m == e.tests[t] IN
                 IF e.kind = "ext"
                 THEN R(FLe(lo(m), FAdd(w(m), FMul(eps, nrm(m)))), "sum: external approximation cuts the sum")
                 ELSE R(FLe(w(m), FAdd(hi(m), FMul(eps, nrm(m)))), "sum: internal approximation exceeds the sum")
               : t \in 1..Len(e.tests) }
SameEll(A, B, eps) == WellFormed(A) /\ WellFormed(B) /\ Dim(A) = Dim(B)
                      /\ VClose(A.c, B.c, eps) /\ MClose(A.q, B.q, eps)
JudgeMink(e) ==
  IF e.err /= "" THEN {"sum: unexpected error " \o e.err}
  ELSE IF Len(e.res) /= Len(e.dirs) THEN {"sum: one result per direction expected"}
  ELSE IF Len(e.ells) = 1
  THEN UNION { R(SameEll(e.res[k], e.ells[1], E9), "sum: a single summand must be returned as is") : k \in 1..Len(e.res) }
  ELSE UNION { MinkOk(e, k) : k \in 1..Len(e.res) }

(* --------------------------------------------------------- membership --- *)
\* 1 - r^2 = det([[Q, d], [d', 1]]) / det(Q), r the ellipsoidal norm of d = x - c.
\* The verdict of a membership question: "in", "out" or "edge" (decided either way).
IsDiag(q) == \A i, j \in 1..Len(q) : i = j \/ q[i][j] = Zero
FullVerdict(q, tol, d) ==
  LET s == ScaleOf(q)
      dq == FMul(s, Det(MScale(s, q)))
      db == Det(MScale(s, Border(q, d, One)))
      lim == FMul(tol, dq)
      \* r <= 1 + tol, up to a tenth of the tolerance
  IN IF FLe(E9, FAdd(db, FMul(FScaled(19000, 1), lim))) THEN "in"
     ELSE IF FLt(db, FNeg(FAdd(FMul(FScaled(23000, 1), lim), E9))) THEN "out" ELSE "edge"
\* a flat set is thickened by the tolerance: exactly known when its axes are the coordinate ones
DiagVerdict(q, tol, d) ==
  LET w(k) == FMax(q[k][k], tol)
      r2 == FSum([k \in 1..Len(q) |-> FDiv(FSq(d[k]), w(k))])
  IN IF FLe(r2, FAdd(One, FMul(FScaled(19000, 1), tol))) THEN "in"
     ELSE IF FLt(FAdd(One, FMul(FScaled(23000, 1), tol)), r2) THEN "out" ELSE "edge"
FlatVerdict(q, d) ==
  LET s == ScaleOf(q)
      at(f) == MScale(s, Border(q, VScale(f, d), One))
  IN IF PSD(at(FScaled(10500, 1)), E10) THEN "in"
     ELSE IF ~PSD(at(FScaled(9500, 1)), E6) THEN "out" ELSE "edge"
Membership(E, tol, x) ==
  LET d == VSub(x, E.c) IN
  IF IsDiag(E.q) THEN DiagVerdict(E.q, tol, d)
  ELSE IF Full(E) THEN FullVerdict(E.q, tol, d) ELSE FlatVerdict(E.q, d)
JudgeInternal(e) ==
  IF e.err /= "" THEN {"membership: unexpected error " \o e.err}
  ELSE IF Len(e.res) /= Len(e.points) THEN {"membership: one answer per point expected"}
  ELSE UNION { LET v == { Membership(e.ells[j], e.tols[j], e.points[k]) : j \in 1..Len(e.ells) }
                   want == IF e.mode = "u"
                           THEN (IF "in" \in v THEN "t" ELSE IF "edge" \in v THEN "any" ELSE "f")
                           ELSE (IF "out" \in v THEN "f" ELSE IF "edge" \in v THEN "any" ELSE "t")
               IN R(want = "any" \/ e.res[k] = (want = "t"), "membership: wrong answer in mode " \o e.mode)
             : k \in 1..Len(e.points) }

(* ---------------------------------------------------------- inclusion --- *)
\* does the first ellipsoid contain the second one when their centres coincide
Bigger(q1, q2, tol) ==
  LET s == FMin(ScaleOf(q1), ScaleOf(q2))
      a == MScale(s, q1)
      b == MScale(s, q2)
  IN IF PSD(MSub(a, b), E9) THEN "t"
     ELSE IF ~PSD(MSub(MScale(FAdd(One, FTimes(20, tol)), a), b), E6) THEN "f" ELSE "any"
JudgeBigger(e) ==
  LET w == Bigger(e.first.q, e.second.q, e.tol) IN
  IF e.err /= "" THEN {"inclusion: unexpected error " \o e.err}
  ELSE R(w = "any" \/ e.res = (w = "t"), "inclusion: wrong answer, expected " \o w)

(* -------------------------------------------------------------- polar --- *)
\* polar set { y : <x, y> <= 1 for x in E }; with M = Q - c c' it is the ellipsoid
\* E(-M^-1 c, (1 + c' M^-1 c) M^-1)
OriginInside(E) ==
  LET dq == Det(E.q)  db == Det(Border(E.q, E.c, One)) IN
  IF FLt(FMul(FScaled(100, 1), dq), db) THEN "in" ELSE IF FLt(db, FNeg(FMul(FScaled(100, 1), dq))) THEN "out" ELSE "edge"
PolarOk(E, P) ==
  IF ~WellFormed(P) \/ Dim(P) /= Dim(E) THEN {"polar: malformed result"}
  ELSE LET M == MSub(E.q, Outer(E.c, E.c))
           s == FSub(One, Dot(E.c, P.c))
       IN R(VClose(MatVec(M, P.c), VNeg(E.c), E6), "polar: centre")
          \cup R(MClose(MatMul(M, P.q), MScale(s, Ident(Dim(E))), E6), "polar: shape")
JudgePolar(e) ==
  LET v == [k \in 1..Len(e.ells) |-> IF Full(e.ells[k]) THEN OriginInside(e.ells[k]) ELSE "out"] IN
  IF \E k \in 1..Len(v) : v[k] = "edge" THEN {}
  ELSE IF \E k \in 1..Len(v) : v[k] = "out"
  THEN R(e.err = "lib:degenerateEllipsoid", "polar: an unbounded polar must be refused")
  ELSE IF e.err /= "" THEN {"polar: unexpected error " \o e.err}
  ELSE IF Len(e.res) /= Len(e.ells) THEN {"polar: one result per ellipsoid expected"}
  ELSE R(e.rshape = e.eshape, "polar: array shape")
       \cup UNION { PolarOk(e.ells[k], e.res[k]) : k \in 1..Len(e.ells) }

(* --------------------------------------------------------- projection --- *)
Orthogonal(B) == \A i, j \in 1..Len(B) : i = j \/ FLe(FAbs(Dot(B[i], B[j])), E8)
ClearlySkew(B) == \E i, j \in 1..Len(B) : i /= j /\ FLe(FScaled(100, 1), FAbs(Dot(B[i], B[j])))
\* basis: sequence of columns
ProjOk(E, B, P) ==
  IF ~WellFormed(P) \/ Dim(P) /= Len(B) THEN {"projection: malformed result"}
  ELSE LET nb == [k \in 1..Len(B) |-> FSqrt(Norm2(B[k]))] IN
       R(\A k \in 1..Len(B) : FClose(FMul(P.c[k], nb[k]), Dot(B[k], E.c), E7), "projection: centre")
       \cup R(\A i, j \in 1..Len(B) :
                FClose(FMul(FMul(P.q[i][j], nb[i]), nb[j]), Dot(B[i], MatVec(E.q, B[j])), E6), "projection: shape")
JudgeProj(e) ==
  LET bad == Len(e.basis) > Len(e.basis[1]) \/ (\E k \in 1..Len(e.ells) : Dim(e.ells[k]) /= Len(e.basis[1])) IN
  IF bad \/ ClearlySkew(e.basis)
  THEN R(e.err = "lib:wrongInput", "projection: unsuitable basis must be refused")
       \cup R(\A k \in 1..Len(e.ells) : e.after[k] = e.ells[k], "projection: operands changed by a refused call")
  ELSE IF e.err /= "" THEN {"projection: unexpected error " \o e.err}
  ELSE IF Len(e.res) /= Len(e.ells) THEN {"projection: one result per ellipsoid expected"}
  ELSE UNION { ProjOk(e.ells[k], e.basis, e.res[k]) : k \in 1..Len(e.ells) }
       \cup R(IF e.inplace THEN \A k \in 1..Len(e.ells) : e.after[k] = e.res[k]
              ELSE \A k \in 1..Len(e.ells) : e.after[k] = e.ells[k],
              IF e.inplace THEN "projection: operands not projected in place" ELSE "projection: operands changed by the copying form")
       \cup R(Len(e.ells) = 1 \/ e.rshape = e.eshape, "projection: array shape")
       \cup R(\A k \in 1..Len(e.rdim) : e.rdim[k] = Len(e.basis), "projection: reported dimension")

(* --------------------------------------------------------- reflection --- *)
JudgeNeg(e) ==
  IF e.err /= "" THEN {"reflection: unexpected error " \o e.err}
  ELSE IF Len(e.res) /= Len(e.ells) THEN {"reflection: one result per operand expected"}
  ELSE UNION { R(WellFormed(e.res[k]) /\ VNear(e.res[k].c, VNeg(e.ells[k].c), E10) /\ MNear(e.res[k].q, e.ells[k].q, E10),
                 "reflection: wrong set") : k \in 1..Len(e.ells) }
       \cup R(e.rshape = e.eshape, "reflection: array shape")

(* ---------------------------------------------------- characteristics --- *)
Pi2 == FMul(Pi, Pi)
\* volume of the unit ball squared: v(n) = v(n - 2) * 2 pi / n
RECURSIVE BallVol2(_)
BallVol2(n) == IF n = 0 THEN One ELSE IF n = 1 THEN FInt(4)
               ELSE FDiv(FMul(BallVol2(n - 2), FMul(FInt(4), Pi2)), FInt(n * n))
\* vol^2 = ball^2 det Q, stated for Q / r^2 with r^2 the greatest entry (rounding is absolute there)
RECURSIVE FPow(_, _)
FPow(a, n) == IF n = 0 THEN One ELSE FMul(a, FPow(a, n - 1))
VolumeOk(E, vol) ==
  LET n == Dim(E)  s == ScaleOf(E.q)  d == Det(MScale(s, E.q))
      v == FMul(vol, FPow(FSqrt(s), n))
  IN FNonNeg(vol) /\ FNear(FSq(v), FMul(BallVol2(n), d), FMul(BallVol2(n), FAdd(E10, FMul(E6, d))))
\* lam is the least / greatest eigenvalue of q: the difference is semidefinite and singular
Extreme(d) == PSD(d, E9) /\ FNear(Det(d), Zero, E9)
MinEigOk(q, lam) == IsFx(lam) /\ Extreme(MScale(ScaleOf(q), MSub(q, MScale(lam, Ident(Len(q))))))
MaxEigOk(q, lam) == IsFx(lam) /\ Extreme(MScale(ScaleOf(q), MSub(MScale(lam, Ident(Len(q))), q)))
\* the ellipsoid counts as degenerate when its least eigenvalue does not exceed the tolerance
DegVerdict(E, tol) ==
  LET n == Dim(E) IN
  IF ~PSD(MSub(E.q, MScale(FMul(FScaled(5000, 1), tol), Ident(n))), Zero) THEN "t"
  ELSE IF PD(MSub(E.q, MScale(FTimes(2, tol), Ident(n))), Zero) THEN "f" ELSE "any"
CharOk(E, tol, ch) ==
  LET n == Dim(E)  dg == DegVerdict(E, tol) IN
  R(ch.dim = n, "characteristics: dimension")
  \cup R(ch.rank = RankPSD(Scaled(E.q), E9), "characteristics: rank")
  \cup R(dg = "any" \/ ch.deg = (dg = "t"), "characteristics: degeneracy")
  \cup R(IsFx(ch.trace) /\ FClose(ch.trace, TraceOf(E.q), E8), "characteristics: trace")
  \cup R(MinEigOk(E.q, ch.mineig), "characteristics: least eigenvalue")
  \cup R(MaxEigOk(E.q, ch.maxeig), "characteristics: greatest eigenvalue")
  \cup (IF ~IsFx(ch.vol) THEN {"characteristics: volume not finite"}
        ELSE IF dg = "t" THEN R(ch.vol = Zero, "characteristics: volume of a flat ellipsoid")
        ELSE R(VolumeOk(E, ch.vol), "characteristics: volume"))
  \cup R(ch.rank < n \/ (IsFx(ch.vol2) /\ VolumeOk(E, ch.vol2)), "characteristics: volume of a shape matrix")
  \cup R(ch.empty = FALSE, "characteristics: emptiness")
JudgeChars(e) ==
  IF e.err /= "" THEN {"characteristics: unexpected error " \o e.err}
  ELSE IF Len(e.ch) /= Len(e.ells) THEN {"characteristics: one value per ellipsoid expected"}
  ELSE UNION { CharOk(e.ells[k], e.tols[k], e.ch[k]) : k \in 1..Len(e.ells) }
       \cup R(e.shapes = <<e.eshape, e.eshape, e.eshape, e.eshape>>, "characteristics: array shape")
JudgeEmptyChars(e) ==  \* an array containing an ellipsoid of dimension zero
  R(e.dims = e.expdims, "characteristics: dimension with empty ellipsoids")
  \cup R(e.rdims = e.expdims, "characteristics: dimension with rank and empty ellipsoids")
  \cup R(e.ranks = e.expdims, "characteristics: rank with empty ellipsoids")
  \cup R(e.rshapes = <<e.eshape, e.eshape>>, "characteristics: array shape with empty ellipsoids")
  \cup R(e.nils = <<e.nil, e.nil, e.nil, e.nil>>, "characteristics: array without ellipsoids")
  \cup R(e.empty = [k \in 1..Len(e.expdims) |-> e.expdims[k] = 0], "characteristics: emptiness")
  \cup R(\A k \in 1..Len(e.refused) : e.refused[k] = "lib:wrongInput", "characteristics: empty ellipsoid must be refused")

(* ----------------------------------------------------------- boundary --- *)
\* smallest number of vertices of a repeatedly refined icosahedron (at least once) that is >= n
RECURSIVE SphereCount(_, _)
SphereCount(v, n) == IF v >= n THEN v ELSE SphereCount(4 * v - 6, n)
BoundaryCount(dim, n) == IF dim = 2 THEN n ELSE SphereCount(42, n)
\* x lies on the boundary of E: the bordered determinant vanishes
OnBoundary(E, x) ==
  LET s == ScaleOf(E.q)  b == MScale(s, Border(E.q, VSub(x, E.c), One)) IN
  IF Full(E) THEN FLe(FAbs(Det(b)), FMul(E6, FMul(s, Det(MScale(s, E.q)))))
  ELSE PSD(b, E6)      \* flat: the point belongs to the set
\* consecutive boundary points follow the circle of directions counter-clockwise
CcwStep(E, a, b) == LET u == VSub(a, E.c)  v == VSub(b, E.c) IN FLe(Zero, FSub(FMul(u[1], v[2]), FMul(u[2], v[1])))
EdgeSet2(f) == { <<f[k][1], f[k][2]>> : k \in 1..Len(f) }
ClosedLoop(f, n) == Len(f) = n /\ (\A k \in 1..n : f[k] = <<k - 1, k % n>>)
HalfEdges(f) == [k \in 1..(3 * Len(f)) |->
                   LET t == f[((k - 1) \div 3) + 1] IN
                   CASE k % 3 = 1 -> <<t[1], t[2]>> [] k % 3 = 2 -> <<t[2], t[3]>> [] OTHER -> <<t[3], t[1]>>]
ClosedSurface(f, n) ==
  LET he == HalfEdges(f)  hs == { he[k] : k \in 1..Len(he) } IN
  /\ Len(f) = 2 * n - 4                                        \* Euler: triangulated sphere
  /\ Cardinality(hs) = 3 * Len(f)                              \* every oriented edge once
  /\ \A x \in hs : <<x[2], x[1]>> \in hs                       \* and its opposite
  /\ { x[1] : x \in hs } = 0..(n - 1)
JudgeBoundary(e) ==
  IF e.dim \notin {2, 3} THEN R(e.err = "lib:wrongDim", "boundary: only planar and spatial ellipsoids have a sampled boundary")
  ELSE IF e.err /= "" THEN {"boundary: unexpected error " \o e.err}
  ELSE LET n == BoundaryCount(e.dim, e.num \div e.den) IN
       R(e.count = n, "boundary: number of points")
       \cup R(e.distinct, "boundary: repeated points")
       \cup R(\A k \in 1..Len(e.pts) : IsVec(e.pts[k]) /\ Len(e.pts[k]) = e.dim /\ OnBoundary(e.ell, e.pts[k]),
              "boundary: point off the boundary")
       \cup (IF e.grid = << >> THEN {}
             ELSE R(IF e.dim = 2 THEN ClosedLoop(e.grid, n) ELSE ClosedSurface(e.grid, n), "boundary: connectivity"))
JudgeRhoBoundary(e) ==
  IF e.dim \notin {2, 3} THEN R(e.err = "lib:wrongDim", "boundary: only planar and spatial ellipsoids have a sampled boundary")
  ELSE IF e.err /= "" THEN {"boundary: unexpected error " \o e.err}
  ELSE LET n == BoundaryCount(e.dim, e.num \div e.den) IN
       R(e.count = n + 1 /\ e.scount = n + 1 /\ e.lcount = n + 1, "boundary: number of directions")
       \cup R(e.closed, "boundary: first point not repeated at the end")
       \cup R(\A k \in 1..Len(e.dirs) : IsVec(e.dirs[k]) /\ FNear(Norm2(e.dirs[k]), One, E8), "boundary: direction not normalised")
       \cup UNION { SupportOkFlat(e.ell, e.dirs[k], e.sup[k], e.pts[k], FALSE) : k \in 1..Len(e.dirs) }
       \cup R(IF e.dim = 2 THEN ClosedLoop(e.grid, n) ELSE e.grid = << >> \/ ClosedSurface(e.grid, n), "boundary: connectivity")

(* -------------------------------------------------------------- judge --- *)
Verdict(e) ==
  CASE e.op = "rho" -> JudgeRho(e)
    [] e.op = "mink" -> JudgeMink(e)
    [] e.op = "internal" -> JudgeInternal(e)
    [] e.op = "bigger" -> JudgeBigger(e)
    [] e.op = "polar" -> JudgePolar(e)
    [] e.op = "proj" -> JudgeProj(e)
    [] e.op = "neg" -> JudgeNeg(e)
    [] e.op = "chars" -> JudgeChars(e)
    [] e.op = "emptychars" -> JudgeEmptyChars(e)
    [] e.op = "boundary" -> JudgeBoundary(e)
    [] e.op = "rhoboundary" -> JudgeRhoBoundary(e)
    [] e.op = "refuse" -> R(e.refused, e.what \o ": must be refused by a library error, got '" \o e.err \o "'")
    [] OTHER -> {"unknown step"}
\* every operation but the in-place projection leaves its arguments alone
Judge(e) == Verdict(e) \cup (IF "kept" \in DOMAIN e THEN R(e.kept, e.op \o ": arguments changed by the call") ELSE {})
=============================================================================
