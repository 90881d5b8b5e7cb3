-------------------------------- MODULE SupGeom --------------------------------
(***************************************************************************)
(* Support functions on a grid of directions (P21).  A body is known by    *)
(* its support function r on directions l_1..l_n; it is the polyhedron     *)
(* B(l, r) = {x : <l_k, x> <= r_k}.  Boundary points lie on the lines      *)
(* (planes) of the directions that define them; the geometric difference   *)
(* of bodies with support r1 and r2 is B(l, r1 - r2), and its support      *)
(* function on the grid is the maximum of <l_k, x> over that polyhedron.   *)
(* The maximum is taken over the vertices of small grids, and bounded by   *)
(* a feasible point from below and a nonnegative combination of            *)
(* directions from above on large ones.                                    *)
(***************************************************************************)
EXTENDS Fx
RC(cond, why) == IF cond THEN {} ELSE {why}
Fin(x) == Len(x) = 6
FinV(v) == \A k \in 1..Len(v) : Fin(v[k])
Refused(e) == e.err \in {"lib:wrongInput", "lib:wrongState"}

(* ---------------------------------------------------- boundary from support *)
\* x lies on the line (plane) number k
On(e, x, k) == FNear(Dot(e.L[k], x), e.r[k], E8)
JudgeBoundary(e) ==
  IF e.err /= "" THEN {"boundary: unexpected error " \o e.err}
  ELSE RC(e.kept, "boundary: an argument was modified")
       \cup (IF Len(e.pts) /= Len(e.F) \/ \E k \in 1..Len(e.pts) : Len(e.pts[k]) /= e.d \/ ~FinV(e.pts[k]) THEN {"boundary: wrong number of points"} ELSE
             RC(\A k \in 1..Len(e.pts) : \A j \in 1..Len(e.F[k]) : On(e, e.pts[k], e.F[k][j] + 1), "boundary: a point is off its lines")
             \cup (IF ~e.inside THEN {} ELSE     \* neighbours touch the body itself: the points are its vertices
                   RC(\A k \in 1..Len(e.pts) : \A j \in 1..Len(e.L) : FLe(Dot(e.L[j], e.pts[k]), FAdd(e.r[j], E8)), "boundary: a point lies outside the body")))

(* ------------------------------------------------------ geometric difference *)
Det2(a, b) == FSub(FMul(a[1], b[2]), FMul(a[2], b[1]))
Cross(a, b) == <<FSub(FMul(a[2], b[3]), FMul(a[3], b[2])), FSub(FMul(a[3], b[1]), FMul(a[1], b[3])), FSub(FMul(a[1], b[2]), FMul(a[2], b[1]))>>
SDiv(a, b) == IF FNonNeg(b) THEN FDiv(a, b) ELSE FDiv(FNeg(a), FNeg(b))
Solve2(a, b, p, q) == LET d == Det2(a, b) IN <<SDiv(FSub(FMul(p, b[2]), FMul(q, a[2])), d), SDiv(FSub(FMul(a[1], q), FMul(b[1], p)), d)>>
Solve3(a, b, c, p, q, s) == LET d == Dot(a, Cross(b, c))
                                w == VAdd(VAdd(VScale(p, Cross(b, c)), VScale(q, Cross(c, a))), VScale(s, Cross(a, b)))
                            IN TLCEval([k \in 1..3 |-> SDiv(w[k], d)])
Thin == <<0, 100, 0, 0, 0, 0>>          \* 1e-6
Feasible(L, r, x) == \A k \in 1..Len(L) : FLe(Dot(L[k], x), FAdd(r[k], E9))
Vertices2(L, r) == { x \in { Solve2(L[p[1]], L[p[2]], r[p[1]], r[p[2]]) : p \in { q \in (1..Len(L)) \X (1..Len(L)) : q[1] < q[2] /\ FLt(Thin, FAbs(Det2(L[q[1]], L[q[2]]))) } } : Feasible(L, r, x) }
Vertices3(L, r) == { x \in { Solve3(L[p[1]], L[p[2]], L[p[3]], r[p[1]], r[p[2]], r[p[3]]) :
                             p \in { q \in (1..Len(L)) \X (1..Len(L)) \X (1..Len(L)) : q[1] < q[2] /\ q[2] < q[3] /\ FLt(Thin, FAbs(Dot(L[q[1]], Cross(L[q[2]], L[q[3]])))) } } : Feasible(L, r, x) }
Vertices(L, r) == TLCEval(IF Len(L[1]) = 2 THEN Vertices2(L, r) ELSE Vertices3(L, r))
Highest(vs, l) == LET m == TLCEval({ Dot(l, x) : x \in vs }) IN CHOOSE a \in m : \A b \in m : FLe(b, a)
Support(L, r) == LET vs == Vertices(L, r) IN TLCEval([k \in 1..Len(L) |-> Highest(vs, L[k])])

\* a witness for direction k: a point x of the body, and weights w on the directions i with sum w_j l_ij = l_k
RECURSIVE Combined(_, _, _, _), Bound(_, _, _, _)
Combined(L, i, w, n) == IF n = 0 THEN ZeroVec(Len(L[1])) ELSE VAdd(Combined(L, i, w, n - 1), VScale(w[n], L[i[n] + 1]))
Bound(r, i, w, n) == IF n = 0 THEN Zero ELSE FAdd(Bound(r, i, w, n - 1), FMul(w[n], r[i[n] + 1]))
FromBelow(L, r, k, t) == IF Feasible(L, r, t.x) THEN {Dot(L[k], t.x)} ELSE {}
FromAbove(L, r, k, t) == IF (\A j \in 1..Len(t.w) : FNonNeg(t.w[j])) /\ VNear(Combined(L, t.i, t.w, Len(t.w)), L[k], E9) THEN {Bound(r, t.i, t.w, Len(t.w))} ELSE {}
Rel(e) == IF e.d = 2 THEN E8 ELSE <<0, 3000, 0, 0, 0, 0>>      \* rays are admitted 1e-5 outside a facet
Slack(e, x) == FAdd(E8, FMul(Rel(e), FAbs(x)))
Bad(e) == e.sizes \/ \E k \in 1..Len(e.r) : FLe(e.r[k], Zero)
JudgeDiff(e) ==
  IF Bad(e) THEN RC(Refused(e), "difference: wrong input was not refused")
  ELSE IF e.err /= "" THEN {"difference: unexpected error " \o e.err}
  ELSE IF Len(e.h) /= Len(e.L) \/ ~FinV(e.h) THEN {"difference: not one number for every direction"}
  ELSE RC(e.kept, "difference: an argument was modified")
       \cup RC(\A k \in 1..Len(e.h) : FLe(e.h[k], FAdd(e.r[k], Slack(e, e.r[k]))), "difference: above the pointwise difference")
       \cup (IF Len(e.wit) = 0
             THEN LET s == Support(e.L, e.r) IN RC(\A k \in 1..Len(e.h) : FNear(e.h[k], s[k], Slack(e, s[k])), "difference: not the support function of the largest convex body")
             ELSE RC(\A k \in 1..Len(e.h) : \A v \in FromBelow(e.L, e.r, k, e.wit[k]) : FLe(v, FAdd(e.h[k], Slack(e, v))), "difference: below the support function of the largest convex body")
                  \cup RC(\A k \in 1..Len(e.h) : \A v \in FromAbove(e.L, e.r, k, e.wit[k]) : FLe(e.h[k], FAdd(v, Slack(e, v))), "difference: above the support function of the largest convex body")
                  \cup RC(\A k \in 1..Len(e.h) : FromBelow(e.L, e.r, k, e.wit[k]) /= {} /\ FromAbove(e.L, e.r, k, e.wit[k]) /= {}, "harness: a witness is not valid"))
Judge(e) ==
  CASE e.op = "boundary" -> JudgeBoundary(e) [] e.op = "diff" -> JudgeDiff(e)
=============================================================================
