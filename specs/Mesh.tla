---------------------------------- MODULE Mesh ----------------------------------
(***************************************************************************)
(* Triangle meshes: incidence tables and equality (P19), refinement (P18), *)
(* partitions of the sphere and the circle (P20), tube grids (P30).        *)
(* A mesh is a sequence of vertices (vectors) and a sequence of faces      *)
(* (triples of vertex numbers counted from 0).                             *)
(***************************************************************************)
EXTENDS Fx
RC(cond, why) == IF cond THEN {} ELSE {why}
Fin(x) == Len(x) = 6
LibErr(e) == e.err \in {"lib:wrongInput", "lib:wrongSizes", "lib:wrongDim", "lib:wrong_input"}
Ok(e, reasons) == IF e.err /= "" THEN {e.op \o ": unexpected error " \o e.err} ELSE reasons \cup RC(e.kept, e.op \o ": an argument was modified")
FaceSet(f) == {f[1], f[2], f[3]}
EdgesOf(f) == {{f[1], f[2]}, {f[2], f[3]}, {f[1], f[3]}}
Faces(F) == { FaceSet(F[k]) : k \in 1..Len(F) }
Edges(F) == UNION { EdgesOf(F[k]) : k \in 1..Len(F) }
\* edges of a face given as a set of three vertices
SideSets(s) == { s \ {v} : v \in s }

(* ------------------------------------------------------ incidence tables *)
Corner(f, j) == CASE j = 1 -> <<f[1], f[2]>> [] j = 2 -> <<f[2], f[3]>> [] OTHER -> <<f[1], f[3]>>
Reversed(p) == <<p[2], p[1]>>
EdgeTable(E, F) == /\ \A k \in 1..Len(E) : Len(E[k]) = 2
                   /\ LET es == { {E[k][1], E[k][2]} : k \in 1..Len(E) } IN es = Edges(F) /\ Cardinality(es) = Len(E)
FaceTable(E, F, f2e, dir) ==
  /\ Len(f2e) = Len(F) /\ Len(dir) = Len(F)
  /\ \A k \in 1..Len(F) : Len(f2e[k]) = 3 /\ Len(dir[k]) = 3 /\ \A j \in 1..3 :
       f2e[k][j] \in 0..(Len(E) - 1) /\ LET p == E[f2e[k][j] + 1] IN p = (IF dir[k][j] THEN Corner(F[k], j) ELSE Reversed(Corner(F[k], j)))
Attached(F, p) == { k - 1 : k \in { q \in 1..Len(F) : {p[1], p[2]} \in EdgesOf(F[q]) } }
JudgeEdges(e) ==
  IF e.bad THEN RC(LibErr(e), "edges: faces without three corners were not refused")
  ELSE Ok(e, IF ~EdgeTable(e.E, e.F) \/ ~EdgeTable(e.E2, e.F) THEN {"edges: not every edge exactly once"} ELSE
       RC(FaceTable(e.E, e.F, e.f2e, e.dir), "edges: a face is not mapped to its edges")
       \cup RC(Len(e.groups) = Len(e.E2) /\ \A k \in 1..Len(e.E2) : LET a == Attached(e.F, e.E2[k]) IN
                 Len(e.groups[k]) = Cardinality(a) /\ { e.groups[k][j] : j \in 1..Len(e.groups[k]) } = a, "edges: wrong faces attached to an edge"))
JudgeIsFace(e) ==
  Ok(e, RC(Len(e.ans) = Len(e.C) /\ \A k \in 1..Len(e.C) : e.ans[k] <=> (FaceSet(e.C[k]) \in Faces(e.F)), "isface: wrong answer"))

(* --------------------------------------------------------------- equality *)
Gap(u, v) == MaxAbs(VSub(u, v))
\* coordinates of all vertices fall into clusters that no tolerance can confuse
Separated(V1, V2, tol) == LET U == V1 \o V2 IN
  \A c \in 1..Len(U[1]) : \A i, j \in 1..Len(U) : LET d == FAbs(FSub(U[i][c], U[j][c])) IN FLe(d, tol) \/ FLe(FTimes(3, tol), d)
Partners(V1, V2, t) == TLCEval([i \in 1..Len(V1) |-> { j \in 1..Len(V2) : FLe(Gap(V1[i], V2[j]), t) }])
\* "t": some matching within the tolerance maps faces onto faces, "f": none, "any": not decided here
Matching(e) ==
  IF Len(e.V1) /= Len(e.V2) \/ Len(e.F1) /= Len(e.F2) THEN "f"
  ELSE LET n == Len(e.V1)  far == Partners(e.V1, e.V2, FAdd(e.tol, E9)) IN
       IF (\E i \in 1..n : far[i] = {}) \/ Cardinality(UNION { far[i] : i \in 1..n }) < n THEN "f"
       ELSE IF \E i \in 1..n : Cardinality(far[i]) > 1 THEN "any"
       ELSE LET m == TLCEval([i \in 1..n |-> (CHOOSE j \in far[i] : TRUE) - 1])
                img == { {m[v + 1] : v \in s} : s \in Faces(e.F1) } IN
            IF img /= Faces(e.F2) THEN "f"
            ELSE IF Separated(e.V1, e.V2, e.tol) /\ Cardinality(img) = Len(e.F1) THEN "t" ELSE "any"
JudgeTriEq(e) ==
  Ok(e, RC(e.ans <=> (e.report = ""), "trieq: the report does not fit the answer")
        \cup RC(LET m == Matching(e) IN m = "any" \/ (m = "t") = e.ans, "trieq: wrong answer"))

(* ------------------------------------------------------------- refinement *)
Len2(V, x) == LET a == CHOOSE v \in x : TRUE  b == CHOOSE v \in x : v /= a IN Norm2(VSub(V[a + 1], V[b + 1]))
\* the combinatorial step: S split faces, X split edges, mid: edge -> new vertex
SplitFaces(F, L) == { k \in 1..Len(F) : EdgesOf(F[k]) \cap L /= {} }
Children(s, mid) == { {v} \cup {mid[x] : x \in {y \in SideSets(s) : v \in y}} : v \in s } \cup { {mid[x] : x \in SideSets(s)} }
Refined(fs, split, mid) ==        \* fs: faces as sets, split \subseteq fs
  LET kept == fs \ split  X == UNION { SideSets(s) : s \in split } IN
  kept \cup UNION { Children(s, mid) : s \in split } \cup { x \cup {mid[x]} : x \in X \cap UNION { SideSets(s) : s \in kept } }
\* the place of a new vertex
Placed(fun, m, v) ==
  CASE fun = "none" -> VNear(v, m, E9)
    [] fun = "double" -> VNear(v, VScale(Two, m), E9)
    [] fun = "shift" -> VNear(v, TLCEval([k \in 1..Len(m) |-> FAdd(m[k], Half)]), E9)
    [] fun = "flat" -> VNear(v, TLCEval([k \in 1..Len(m) |-> IF k = Len(m) THEN Zero ELSE m[k]]), E9)
    [] fun = "unit" -> LET s == Dot(v, m) IN FNear(Norm2(v), One, E9) /\ FLt(Zero, s) /\ VNear(VScale(s, v), m, E9)
Prefix(s, t) == Len(s) <= Len(t) /\ \A k \in 1..Len(s) : s[k] = t[k]
MaxLen(V, es) == FSqrt(CHOOSE l \in { Len2(V, x) : x \in es } : \A x \in es : FLe(Len2(V, x), l))
JudgeRefine(e) ==
  LET nv == Len(e.V)  nn == Len(e.V2) - nv
      lim == FSq(e.max)  eps == E9
      lens == TLCEval([x \in Edges(e.F) |-> Len2(e.V, x)])
      \* the length of an edge along an axis is exact: one that equals the bound is not over-long
      Exact(x) == lens[x] = lim /\ \E a, b \in x : a # b /\ Cardinality({ k \in 1..Len(e.V[a + 1]) : e.V[a + 1][k] # e.V[b + 1][k] }) = 1
      vague == \E x \in Edges(e.F) : FNear(lens[x], lim, eps) /\ ~Exact(x)
      L == { x \in Edges(e.F) : FLt(lim, lens[x]) }
      S == { FaceSet(e.F[k]) : k \in SplitFaces(e.F, L) }
      X == UNION { SideSets(s) : s \in S }
      mid == TLCEval([x \in X |-> LET ks == { k \in 1..Len(e.mids) : {e.mids[k][1], e.mids[k][2]} = x } IN IF ks = {} THEN -1 ELSE nv + (CHOOSE k \in ks : TRUE) - 1]) IN
  IF e.err /= "" THEN {"refine: unexpected error " \o e.err}
  ELSE IF vague /\ e.max /= Zero THEN {}
  ELSE RC(e.same, "refine: the result depends on collecting statistics") \cup RC(e.kept, "refine: an argument was modified")
  \cup
  (IF L = {} \/ e.stop
   THEN RC(e.V2 = e.V /\ e.F2 = e.F /\ e.st2 = e.st, "refine: refined without need or beyond the limit")
   ELSE IF ~Prefix(e.V, e.V2) THEN {"refine: a vertex was moved"}
   ELSE IF nn /= Cardinality(X) \/ { {e.mids[k][1], e.mids[k][2]} : k \in 1..nn } /= X THEN {"refine: not one new vertex for every split edge"}
   ELSE RC(\A k \in 1..nn : LET a == e.mids[k][1]  b == e.mids[k][2] IN Placed(e.fun, VScale(Half, VAdd(e.V[a + 1], e.V[b + 1])), e.V2[nv + k]), "refine: a new vertex is not the mapped midpoint")
        \cup (LET w == Refined(Faces(e.F), S, mid) IN RC(Faces(e.F2) = w /\ Len(e.F2) = Cardinality(w), "refine: wrong faces"))
        \cup RC(EdgeTable(e.E2, e.F2) /\ FaceTable(e.E2, e.F2, e.f2e2, e.dir2), "refine: wrong edge tables")
        \cup RC(/\ e.st2.n = e.st.n + 1
                /\ e.st2.nv = Append(e.st.nv, Len(e.V2)) /\ e.st2.nf = Append(e.st.nf, Len(e.F2)) /\ e.st2.ne = Append(e.st.ne, Cardinality(Edges(e.F2)))
                /\ e.st2.sh = Append(e.st.sh, Cardinality(X))
                /\ Len(e.st2.ml) = Len(e.st.ml) + 1 /\ Prefix(e.st.ml, e.st2.ml) /\ FNear(e.st2.ml[Len(e.st2.ml)], MaxLen(e.V, Edges(e.F)), E8),
                "refine: wrong statistics"))
JudgeStart(e) ==
  Ok(e, RC(e.V2 = e.V /\ Faces(e.F2) = Faces(e.F) /\ Len(e.F2) = Len(e.F), "refine: the mesh changed without a step")
        \cup RC(e.st.n = 0 /\ e.st.nv = <<Len(e.V)>> /\ e.st.nf = <<Len(e.F)>> /\ e.st.ne = <<Cardinality(Edges(e.F))>> /\ e.st.sh = << >> /\ e.st.ml = << >>, "refine: wrong statistics"))
\* a run to the end: no edge is longer than the bound
JudgeDone(e) ==
  IF e.err /= "" THEN {"refine: unexpected error " \o e.err}
  ELSE RC(\A x \in Edges(e.F2) : FLe(Len2(e.V2, x), FAdd(FSq(e.max), E9)), "refine: an edge is longer than the bound") \cup RC(e.kept, "refine: an argument was modified")

(* ------------------------------------------------ sphere, circle and tube *)
UnitVec(v) == (\A k \in 1..Len(v) : Fin(v[k])) /\ FNear(Norm2(v), One, E9)
Quarter(d, n) == n * (4 ^ d)
\* every edge in exactly two faces
Closed(F) == \A x \in Edges(F) : Cardinality({ k \in 1..Len(F) : x \in EdgesOf(F[k]) }) = 2
\* directed edges
Directed(F) == UNION { {<<F[k][1], F[k][2]>>, <<F[k][2], F[k][3]>>, <<F[k][3], F[k][1]>>} : k \in 1..Len(F) }
\* every vertex in six faces, the twelve of the icosahedron in five
Degrees(F, n) == LET five == { v \in 0..(n - 1) : Cardinality({ k \in 1..Len(F) : v \in FaceSet(F[k]) }) = 5 } IN
                 Cardinality(five) = 12 /\ 3 * Len(F) = 60 + 6 * (n - 12)
Regular(V, F) == LET ls == { Len2(V, x) : x \in Edges(F) }  a == CHOOSE l \in ls : \A y \in ls : FLe(l, y)
                 IN \A l \in ls : FLe(l, FTimes(2, a))
ClosedFast(F) == LET es == Edges(F) IN 2 * Cardinality(es) = 3 * Len(F) /\ (Len(F) > 400 \/ Closed(F))
JudgeSphere(e) ==
  IF e.bad THEN RC(LibErr(e), "sphere: a wrong depth was not refused")
  ELSE Ok(e, RC(Len(e.V) = Quarter(e.depth, 10) + 2 /\ Len(e.F) = Quarter(e.depth, 20), "sphere: wrong number of vertices or faces")
             \cup RC(\A k \in 1..Len(e.V) : UnitVec(e.V[k]), "sphere: a vertex is off the sphere")
             \cup RC(Cardinality({ e.V[k] : k \in 1..Len(e.V) }) = Len(e.V) /\ Cardinality(Faces(e.F)) = Len(e.F)
                     /\ UNION Faces(e.F) = 0..(Len(e.V) - 1) /\ ClosedFast(e.F), "sphere: not a closed surface")
             \cup RC(e.depth > 2 \/ Len(e.V) /= Quarter(e.depth, 10) + 2 \/ Degrees(e.F, Len(e.V)), "sphere: not the surface of a quartered icosahedron")
             \cup RC(Regular(e.V, e.F), "sphere: edges of very different length")
             \cup (IF e.depth > 0 THEN {} ELSE
                   RC(\A x \in Edges(e.F) : FNear(Len2(e.V, x), FSub(Two, FDiv(Two, FSqrt(FInt(5)))), E8), "sphere: not a regular icosahedron")))
\* k-th of n points that divide the arc from the angle a to the angle b evenly
ArcPoint(a, b, k, n) == LET f == FAdd(a, FDivInt(FTimes(k, FSub(b, a)), n)) IN <<FCos(f), FSin(f)>>
JudgeCircle(e) ==
  Ok(e, RC(Len(e.pts) = e.n /\ e.okshape /\ \A k \in 1..Len(e.pts) : VNear(e.pts[k], ArcPoint(e.a, e.b, k - 1, e.n), E9), "circle: not the even partition of the arc"))
\* distinct directions: no two points equal or opposite
JudgeSpherePart(e) ==
  IF e.n <= 0 THEN RC(LibErr(e), "sphere part: a wrong number of points was not refused")
  ELSE Ok(e, RC(Len(e.pts) = e.n /\ \A k \in 1..Len(e.pts) : Len(e.pts[k]) = 3 /\ UnitVec(e.pts[k]), "sphere part: wrong number of unit vectors")
             \cup RC(\A k \in 1..Len(e.pts) : \A j \in 1..(k - 1) : FLt(FAbs(Dot(e.pts[k], e.pts[j])), FSub(One, E6)), "sphere part: two points give the same direction"))
JudgeSphereExt(e) ==
  IF e.bad THEN RC(LibErr(e), "sphere grid: a wrong number of points was not refused")
  ELSE Ok(e, RC(\A k \in 1..Len(e.V) : UnitVec(e.V[k]), "sphere grid: a point is off the sphere")
        \cup (IF e.dim = 2
              THEN RC(Len(e.V) = e.n /\ \A k \in 1..e.n : VNear(e.V[k], ArcPoint(Zero, FTimes(2, Pi), k - 1, e.n), E9), "sphere grid: not the even partition of the circle")
                   \cup RC(~e.faces \/ (Len(e.F) = e.n /\ { {e.F[k][1], e.F[k][2]} : k \in 1..Len(e.F) } = { {k, (k + 1) % e.n} : k \in 0..(e.n - 1) }), "sphere grid: the segments do not close the circle")
              ELSE RC(Len(e.V) >= e.n, "sphere grid: too few points")
                   \cup RC((\E d \in 1..6 : Len(e.V) = Quarter(d, 10) + 2 /\ Len(e.F) = Quarter(d, 20)) /\ Cardinality(Faces(e.F)) = Len(e.F)
                           /\ UNION Faces(e.F) = 0..(Len(e.V) - 1) /\ ClosedFast(e.F), "sphere grid: not a closed triangulation")))
(* tube grids: n points in each of m sections, numbered section by section *)
Place(n, v) == <<v \div n, v % n>>
Near(n, u, v) == /\ u /= v /\ LET p == Place(n, u)  q == Place(n, v) IN
                    p[1] - q[1] \in {-1, 0, 1} /\ (p[2] - q[2]) % n \in {0, 1, n - 1}
Rim(n, m, x) == \E s \in {0, m - 1} : \A v \in x : v \div n = s
JudgeTube(e) ==
  LET n == e.n  m == e.m  F == e.F  D == Directed(F) IN
  Ok(e, IF Len(F) /= 2 * n * (m - 1) \/ \E k \in 1..Len(F) : Cardinality(FaceSet(F[k])) /= 3 \/ ~(FaceSet(F[k]) \subseteq 0..(n * m - 1)) THEN {"tube: wrong faces"} ELSE
     RC(UNION Faces(F) = 0..(n * m - 1), "tube: a grid point is not used")
     \cup RC(\A x \in Edges(F) : \A u, v \in x : u = v \/ Near(n, u, v), "tube: points that are not neighbours are joined")
     \cup RC(\A x \in Edges(F) : Cardinality({ k \in 1..Len(F) : x \in EdgesOf(F[k]) }) = (IF Rim(n, m, x) THEN 1 ELSE 2), "tube: not a surface")
     \cup RC(Cardinality(D) = 3 * Len(F), "tube: not oriented consistently"))
JudgeDiscr(e) ==
  Ok(e, RC(Len(e.G) = e.m /\ \A s \in 1..Len(e.G) : Len(e.G[s]) = e.n + 1 /\ \A k \in 1..(e.n + 1) : e.G[s][k] = (s - 1) * e.n + ((k - 1) % e.n), "tube: wrong sections"))

Judge(e) ==
  CASE e.op = "edges" -> JudgeEdges(e) [] e.op = "isface" -> JudgeIsFace(e) [] e.op = "trieq" -> JudgeTriEq(e)
    [] e.op = "refine" -> JudgeRefine(e) [] e.op = "start" -> JudgeStart(e) [] e.op = "done" -> JudgeDone(e)
    [] e.op = "sphere" -> JudgeSphere(e) [] e.op = "sphereext" -> JudgeSphereExt(e) [] e.op = "circle" -> JudgeCircle(e) [] e.op = "spherepart" -> JudgeSpherePart(e)
    [] e.op = "tube" -> JudgeTube(e) [] e.op = "discr" -> JudgeDiscr(e)
=============================================================================
