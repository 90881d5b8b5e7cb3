--------------------------------- MODULE LinAlg ---------------------------------
(***************************************************************************)
(* Orthogonal transport (P24), predicates, roots, repairs and              *)
(* diagonalisation of matrices (P25), tolerant sorting of rows (P26).      *)
(* Matrices are sequences of rows.  Every contract is algebraic: it does   *)
(* not depend on which of several admissible matrices is returned.         *)
(***************************************************************************)
EXTENDS Fx
RC(cond, why) == IF cond THEN {} ELSE {why}
Fin(x) == Len(x) = 6
AllFin(m) == \A k \in 1..Len(m) : \A j \in 1..Len(m[k]) : Fin(m[k][j])
Square(m) == \A k \in 1..Len(m) : Len(m[k]) = Len(m)
IsZero(v) == \A k \in 1..Len(v) : v[k] = Zero
Unit(v) == VScale(FDiv(One, FSqrt(Norm2(v))), v)
Orthogonal(o, n) == /\ HasShape(o, n, n) /\ AllFin(o)
                    /\ MNear(MatMul(o, Transp(o)), Ident(n), E7)
Maps(o, src, dst) == VNear(MatVec(o, Unit(src)), Unit(dst), E6)
LibErr(e) == e.err \in {"lib:wrongInput", "lib:wrongSizes", "lib:wrongDim", "lib:wrong_input"}

(* ------------------------------------------------------------- transport *)
JudgeTransl(e) ==
  LET n == Len(e.dst) IN
  IF IsZero(e.src) \/ IsZero(e.dst) THEN RC(LibErr(e), "transport: a zero vector was not refused")
  ELSE IF e.err /= "" THEN {"transport: unexpected error " \o e.err}
  ELSE IF ~Orthogonal(e.o, n) THEN {"transport: not an orthogonal matrix"}
  ELSE RC(Maps(e.o, e.src, e.dst), "transport: the source is not mapped onto the destination")
       \cup RC(e.kept, "transport: the vectors were modified")
RootDiff(v, c) == FSqrt(FMax(Zero, FSub(Norm2(v), FMul(c, c))))
\* greatest value of <dm, O sm> over the orthogonal O that map src onto dst
BestDir(src, dst, sm, dm) == LET c == Dot(Unit(src), sm)  d == Dot(Unit(dst), dm)
                             IN FAdd(FMul(c, d), FMul(RootDiff(sm, c), RootDiff(dm, d)))
JudgeMaxDir(e) ==
  LET n == Len(e.dst) IN
  IF e.err /= "" THEN {"transport: unexpected error " \o e.err}
  ELSE IF ~Orthogonal(e.o, n) THEN {"transport: not an orthogonal matrix"}
  ELSE RC(Maps(e.o, e.src, e.dst), "transport: the source is not mapped onto the destination")
       \cup RC(n = 1 \/ FLe(FSub(BestDir(e.src, e.dst, e.sm, e.dm), Dot(e.dm, MatVec(e.o, e.sm))), FMul(E5, FAdd(One, FMul(FAdd(One, Norm2(e.sm)), FAdd(One, Norm2(e.dm)))))),
               "transport: the direction is not matched best")
       \cup RC(e.kept, "transport: the vectors were modified")
\* tr(O M) is the greatest possible: on the complement of src, M O is symmetric positive semidefinite
TraceOptimal(src, o, m) ==
  LET n == Len(src)  a == Unit(src)
      p == MSub(Ident(n), Outer(a, a))
      b == MatMul(p, MatMul(MatMul(m, o), p))
      s == FAdd(One, MMaxAbs(m))
      c == MScale(FDiv(One, s), b)
  IN Symmetric(c, E6) /\ PSD(MScale(Half, MAdd(c, Transp(c))), E5)
JudgeMaxTr(e) ==
  LET n == Len(e.dst) IN
  IF e.err /= "" THEN {"transport: unexpected error " \o e.err}
  ELSE IF ~Orthogonal(e.o, n) THEN {"transport: not an orthogonal matrix"}
  ELSE RC(Maps(e.o, e.src, e.dst), "transport: the source is not mapped onto the destination")
       \cup RC(n = 1 \/ TraceOptimal(e.src, e.o, e.m), "transport: the trace is not the greatest")
       \cup RC(e.kept, "transport: the vectors were modified")
JudgeMl(e) ==
  IF e.err /= "" THEN {"transport: unexpected error " \o e.err}
  ELSE RC(e.sh = e.want, "transport: wrong shape of the stack")
       \cup (IF e.sh = e.want /\ \E k \in 1..Len(e.items) : ~(Orthogonal(e.items[k].o, Len(e.items[k].src)) /\ Maps(e.items[k].o, e.items[k].src, e.items[k].dst))
             THEN {"transport: a wrong matrix in the stack"} ELSE {})
       \cup RC(e.kept, "transport: the vectors were modified")
\* columns cs of the source; the first columns of o span them one after another
JudgeOrth(e) ==
  LET n == Len(e.src)  k == Len(e.src[1])  ot == Transp(e.o)
      r == IF k < n THEN k ELSE n
      proj(v, j) == LET RECURSIVE acc(_)
                        acc(i) == IF i = 0 THEN ZeroVec(n) ELSE VAdd(acc(i - 1), VScale(Dot(ot[i], v), ot[i]))
                    IN acc(j)
  IN IF e.err /= "" THEN {"orthogonalisation: unexpected error " \o e.err}
     ELSE IF ~Orthogonal(e.o, n) THEN {"orthogonalisation: not an orthogonal matrix"}
     ELSE RC(\A j \in 1..r : VClose(proj(Col(e.src, j), j), Col(e.src, j), E8), "orthogonalisation: the columns are not spanned in turn")
          \cup RC(\A j \in 1..r : FLe(FNeg(E9), Dot(ot[j], Col(e.src, j))), "orthogonalisation: a column is turned around")
          \cup RC(Len(e.c) = n /\ \A i \in 1..n : Len(e.c[i]) = r /\ \A j \in 1..r : FNear(e.c[i][j], e.o[i][j], E9), "orthogonalisation: wrong leading columns")
          \cup RC(e.kept, "orthogonalisation: the matrix was modified")

(* ------------------------------------------------------------ predicates *)
Agree(w, x) == w = "any" \/ x = (w = "t")
Gram(m) == IF Len(m) <= Len(m[1]) THEN MatMul(m, Transp(m)) ELSE MatMul(Transp(m), m)
Shift(m, x) == MSub(m, MScale(x, Ident(Len(m))))
Slack == E5
\* the least singular value is at least tol
NotDeg(m, tol) ==
  IF tol = Zero THEN "t"
  ELSE LET g == Gram(m)
           up == FSq(FMul(FAdd(One, E4), tol))  down == FSq(FMul(FSub(One, E4), tol)) IN
       IF FLe(E4, tol) /\ PSD(Shift(g, up), Zero) /\ FLt(E9, Det(Shift(g, up))) THEN "t"
       ELSE IF FLe(E4, tol) /\ ~PSD(Shift(g, down), E9) THEN "f"
       ELSE IF FLe(tol, E6) /\ Det(g) = Zero /\ FLe(E9, tol) THEN "f"
       ELSE IF FLe(tol, E6) /\ FLe(E4, Det(g)) /\ FLe(MMaxAbs(g), FInt(100)) THEN "t" ELSE "any"
JudgeNotDeg(e) == IF FLt(e.tol, Zero) THEN RC(LibErr(e), "degeneracy: a negative tolerance was not refused")
                  ELSE IF e.err /= "" THEN {"degeneracy: unexpected error " \o e.err}
                  ELSE RC(Agree(NotDeg(e.m, e.tol), e.ans), "degeneracy: wrong answer") \cup RC(e.kept, "degeneracy: the matrix was modified")
SymTol(m, tol) == \A k \in 1..Len(m) : \A j \in 1..k : FLe(FAbs(FSub(m[k][j], m[j][k])), tol)
JudgeSymm(e) ==
  IF e.odd \/ ~Square(e.m) \/ FLt(e.tol, Zero) THEN RC(LibErr(e), "symmetry: wrong arguments were not refused")
  ELSE IF e.err /= "" THEN {"symmetry: unexpected error " \o e.err}
  ELSE RC(e.ans = SymTol(e.m, e.tol), "symmetry: wrong answer") \cup RC(e.kept, "symmetry: the matrix was modified")
\* symmetric part (the library may look at either triangle)
Sym(m) == MScale(Half, MAdd(m, Transp(m)))
Near(m, tol, semi) ==
  LET q == Sym(m)  t == IF semi THEN FNeg(tol) ELSE tol  slack == FAdd(Slack, IF SymTol(m, Zero) THEN Zero ELSE FTimes(Len(m), tol)) IN
  IF semi /\ FLe(E9, tol) /\ PSD(q, <<10, 0, 0, 0, 0, 0>>) THEN "t"       \* exactly singular matrices
  ELSE IF PSD(Shift(q, FAdd(t, slack)), Zero) THEN "t" ELSE IF ~PSD(Shift(q, FSub(t, slack)), E10) THEN "f" ELSE "any"
JudgePosDef(e) ==
  IF ~Square(e.m) \/ FLt(e.tol, Zero) \/ ~SymTol(e.m, e.tol) THEN RC(LibErr(e), "definiteness: wrong arguments were not refused")
  ELSE IF e.err /= "" THEN {"definiteness: unexpected error " \o e.err}
  ELSE RC(Agree(Near(e.m, e.tol, e.semi), e.ans), "definiteness: wrong answer") \cup RC(e.kept, "definiteness: the matrix was modified")

(* ------------------------------------------------------- roots and repair *)
JudgeSqrtm(e) ==
  LET below == Near(e.m, e.tol, TRUE) IN
  IF FLt(e.tol, Zero) \/ ~Square(e.m) \/ ~SymTol(e.m, e.tol) THEN RC(LibErr(e), "root: wrong arguments were not refused")
  ELSE IF below = "f" THEN RC(LibErr(e), "root: an indefinite matrix was not refused")
  ELSE IF below = "any" /\ LibErr(e) THEN {}
  ELSE IF e.err /= "" THEN {"root: unexpected error " \o e.err}
  ELSE LET n == Len(e.m)  b2 == MatMul(e.r, e.r)  d == MSub(b2, e.m)
           lim == FAdd(E7, FTimes(3 * n, e.tol)) IN
       RC(HasShape(e.r, n, n) /\ AllFin(e.r) /\ Symmetric(e.r, E8), "root: not symmetric")
       \cup RC(PSD(Sym(e.r), E6), "root: not positive semidefinite")
       \cup RC(FLe(MMaxAbs(d), FMul(lim, FAdd(One, MMaxAbs(e.m)))), "root: does not square back")
       \cup RC(~SymTol(e.m, Zero) \/ FLe(MMaxAbs(MatMul(d, e.r)), FMul(E5, FAdd(One, MMaxAbs(e.m)))), "root: changed the positive part")
       \cup RC(e.kept, "root: the matrix was modified")
\* the symmetric matrix with eigenvalues raised to tol, others kept
Raised(m, r, tol) ==
  LET n == Len(m)  d == MSub(r, m)  s == FDiv(One, FAdd(One, FAdd(tol, MMaxAbs(m)))) IN
  /\ HasShape(r, n, n) /\ AllFin(r) /\ Symmetric(r, E9)
  /\ PSD(MScale(s, Shift(Sym(r), tol)), E7)
  /\ PSD(MScale(s, Sym(d)), E7)
  /\ FLe(MMaxAbs(MatMul(MScale(s, d), MScale(s, Shift(r, tol)))), E8)
JudgeRegPd(e) ==
  IF e.badtol \/ FLe(e.tol, Zero) \/ ~Square(e.m) \/ ~SymTol(e.m, Zero) THEN RC(LibErr(e), "regularisation: wrong arguments were not refused")
  ELSE IF e.err /= "" THEN {"regularisation: unexpected error " \o e.err}
  ELSE RC(Raised(e.m, e.r, e.tol), "regularisation: not the matrix with raised eigenvalues") \cup RC(e.kept, "regularisation: the matrix was modified")
\* singular values raised to tol, others kept
JudgeReg(e) ==
  IF e.badtol \/ FLe(e.tol, Zero) THEN RC(LibErr(e), "regularisation: wrong arguments were not refused")
  ELSE IF e.err /= "" THEN {"regularisation: unexpected error " \o e.err}
  ELSE LET n == Len(e.m)  s == FDiv(One, FAdd(One, FAdd(e.tol, MMaxAbs(e.m))))
           m == MScale(s, e.m)  r == MScale(s, e.r)  t == FMul(s, e.tol)  d == MSub(r, m)
           rr == MatMul(Transp(r), r)  mr == MatMul(Transp(m), r)  dr == MatMul(Transp(d), r) IN
       IF ~(HasShape(e.r, n, n) /\ AllFin(e.r)) THEN {"regularisation: wrong shape"}
       ELSE RC(PSD(Shift(rr, FSq(t)), E8), "regularisation: a singular value is below the level")
            \cup RC(Symmetric(mr, E8) /\ PSD(Sym(mr), E7) /\ Symmetric(dr, E8) /\ PSD(Sym(dr), E7), "regularisation: the singular vectors changed")
            \cup RC(FLe(MMaxAbs(MatMul(dr, Shift(rr, FSq(t)))), E8), "regularisation: a great singular value changed")
            \cup RC(e.kept, "regularisation: the matrix was modified")
\* a number with imaginary part; im: greatest row sum of the moduli of imaginary parts
RowSum(v) == FSum(TLCEval([k \in 1..Len(v) |-> FAbs(v[k])]))
RECURSIVE MaxRow(_, _)
MaxRow(m, k) == IF k = 0 THEN Zero ELSE FMax(RowSum(m[k]), MaxRow(m, k - 1))
JudgeReal(e) ==
  LET norm == MaxRow(e.im, Len(e.im)) IN
  IF e.badtol \/ ((\E k \in 1..Len(e.im) : ~IsZero(e.im[k])) /\ FLe(e.tol, norm)) THEN RC(LibErr(e), "real part: was not refused")
  ELSE IF e.err /= "" THEN {"real part: unexpected error " \o e.err}
  ELSE RC(e.out = e.re /\ (\A k \in 1..Len(e.oim) : e.oim[k] = Zero), "real part: wrong values") \cup RC(e.osh = e.sh, "real part: wrong shape")
       \cup RC(e.kept, "real part: the argument was modified")

(* ------------------------------------------------ forms, diagonalisation *)
InvForm(q, d) == FNeg(Det(Border(q, d, Zero)))     \* <d, adj(q) d>
JudgeQuad(e) ==
  IF e.bad THEN RC(LibErr(e), "form: wrong arguments were not refused")
  ELSE IF e.err /= "" THEN {"form: unexpected error " \o e.err}
  ELSE LET d == VSub(e.x, e.c) IN
       RC(e.sh = 1 /\ (IF e.mode = "plain" THEN FClose(e.ans, Quad(e.q, d), E8)
          ELSE FClose(FMul(e.ans, Det(e.q)), InvForm(e.q, d), E7)), "form: wrong value")
       \cup RC(e.kept, "form: the arguments were modified")
JudgeInv(e) ==
  IF e.bad THEN RC(LibErr(e), "inverse: wrong arguments were not refused")
  ELSE IF e.err /= "" THEN {"inverse: unexpected error " \o e.err}
  ELSE RC(HasShape(e.r, Len(e.m), Len(e.m)) /\ AllFin(e.r) /\ MNear(MatMul(e.r, e.m), Ident(Len(e.m)), E7), "inverse: not the inverse")
       \cup RC(e.kept, "inverse: the matrix was modified")
OffDiag(m) == TLCEval([k \in 1..Len(m) |-> TLCEval([j \in 1..Len(m) |-> IF j = k THEN Zero ELSE m[k][j]])])
JudgeSimDiag(e) ==
  LET n == Len(e.a)
      refuse == e.bad \/ ~Square(e.a) \/ ~Square(e.b) \/ ~SymTol(e.a, e.tol) \/ ~SymTol(e.b, e.tol) \/ Len(e.b) /= n
      pd == IF refuse THEN "f" ELSE Near(e.a, e.tol, FALSE) IN
  IF refuse \/ pd = "f" THEN RC(LibErr(e), "diagonalisation: wrong arguments were not refused")
  ELSE IF pd = "any" THEN {}
  ELSE IF e.err /= "" THEN {"diagonalisation: unexpected error " \o e.err}
  ELSE IF ~(HasShape(e.t, n, n) /\ AllFin(e.t)) THEN {"diagonalisation: wrong shape"}
  ELSE LET tt == Transp(e.t)  b == MatMul(MatMul(e.t, e.b), tt) IN
       RC(MNear(MatMul(MatMul(e.t, e.a), tt), Ident(n), E7), "diagonalisation: the first matrix does not become the identity")
       \cup RC(FLe(MMaxAbs(OffDiag(b)), FMul(E7, FAdd(One, MMaxAbs(b)))), "diagonalisation: the second matrix does not become diagonal")
       \cup RC(e.kept, "diagonalisation: the matrices were modified")
JudgeValign(e) ==
  IF e.bad THEN RC(LibErr(e), "alignment: wrong arguments were not refused")
  ELSE IF e.err /= "" THEN {"alignment: unexpected error " \o e.err}
  ELSE IF ~Orthogonal(e.t, Len(e.v)) THEN {"alignment: not an orthogonal matrix"}
  ELSE RC(Maps(e.t, e.x, e.v), "alignment: the second vector is not turned to the first") \cup RC(e.kept, "alignment: the vectors were modified")
\* f = k D D' - n D^2 k' for D(a) = det(a A + (1-a) B) and k(a) the fusion factor
Adj(m) == LET n == Len(m) IN
  IF n = 1 THEN <<<<One>>>> ELSE
  TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |->
     LET d == Det(TLCEval([r \in 1..(n - 1) |-> DropAt(m[IF r < j THEN r ELSE r + 1], i)])) IN IF (i + j) % 2 = 0 THEN d ELSE FNeg(d)])])
JudgeFusion(e) ==
  IF e.err /= "" THEN {"fusion: unexpected error " \o e.err}
  ELSE LET n == Len(e.qa)  a == e.lam  b == FSub(One, a)
           x == MAdd(MScale(a, e.qa), MScale(b, e.qb))  det == Det(x)
           y == MScale(FDiv(One, det), Adj(x))
           d == VSub(e.cb, e.ca)
           h == MatMul(e.qb, MatMul(y, e.qa))                  \* (a B^-1 + (1-a) A^-1)^-1
           k == FSub(One, FMul(FMul(a, b), Dot(d, MatVec(h, d))))
           hd == MatVec(h, d)  htd == MatVec(Transp(h), d)
           ia == MScale(FDiv(One, Det(e.qa)), Adj(e.qa))  ib == MScale(FDiv(One, Det(e.qb)), Adj(e.qb))
           kp == FAdd(FNeg(FMul(FSub(One, FTimes(2, a)), Dot(d, hd))), FMul(FMul(a, b), Dot(htd, MatVec(MSub(ib, ia), hd))))
           dp == FMul(det, TraceOf(MatMul(y, MSub(e.qa, e.qb))))
           w == FSub(FMul(k, FMul(det, dp)), FTimes(n, FMul(FMul(det, det), kp)))
           sz == FAdd(One, FAdd(FAbs(FMul(k, FMul(det, dp))), FAbs(FTimes(n, FMul(FMul(det, det), kp)))))
       IN RC(FLe(FAbs(FSub(e.ans, w)), FMul(E7, sz)), "fusion: wrong derivative")
JudgeBall(e) == IF e.err /= "" THEN {"ball: unexpected error " \o e.err} ELSE RC(e.q = Ident(e.n) /\ e.c = ZeroVec(e.n), "ball: not the unit ball")

(* ---------------------------------------------------------- sorting rows *)
\* chains of values with gaps of at most tol count as equal: number of chains that start at or below v
Heads(col, tol) == { k \in 1..Len(col) : \A j \in 1..Len(col) : FLe(col[k], col[j]) \/ FLt(tol, FSub(col[k], col[j])) }
Chain(col, heads, v) == Cardinality({ col[k] : k \in { j \in heads : FLe(col[j], v) } })
Classes(m, tol) == LET n == Cols(m)
                       cs == TLCEval([j \in 1..n |-> LET c == Col(m, j)  h == Heads(c, tol) IN TLCEval([i \in 1..Len(m) |-> Chain(c, h, c[i])])])
                   IN TLCEval([i \in 1..Len(m) |-> TLCEval([j \in 1..n |-> cs[j][i]])])
Before(u, v) == \E j \in 1..Len(u) : u[j] < v[j] /\ \A i \in 1..(j - 1) : u[i] = v[i]
RowBefore(cl, i, k) == Before(cl[i], cl[k]) \/ (cl[i] = cl[k] /\ i < k)
Perm(s, n) == Len(s) = n /\ { s[k] : k \in 1..n } = 0..(n - 1)
JudgeSort(e) ==
  IF e.bad \/ FLt(e.tol, Zero) THEN RC(LibErr(e), "sorting: wrong arguments were not refused")
  ELSE IF e.err /= "" THEN {"sorting: unexpected error " \o e.err}
  ELSE LET n == Len(e.m) IN
       IF ~Perm(e.ind, n) \/ ~Perm(e.rev, n) \/ Len(e.r) /= n THEN {"sorting: not a permutation"}
       ELSE LET cl == Classes(e.m, e.tol) IN
            RC(\A k \in 1..n : e.r[k] = e.m[e.ind[k] + 1], "sorting: a row was altered or misplaced")
            \cup RC(\A k \in 1..n : e.rev[e.ind[k] + 1] = k - 1, "sorting: wrong inverse permutation")
            \cup RC(\A k \in 1..(n - 1) : RowBefore(cl, e.ind[k] + 1, e.ind[k + 1] + 1), "sorting: wrong order")
            \cup RC(e.kept, "sorting: the matrix was modified")
JudgeMatDot(e) ==
  IF e.bad THEN RC(LibErr(e), "scalar product: wrong arguments were not refused")
  ELSE IF e.err /= "" THEN {"scalar product: unexpected error " \o e.err}
  ELSE RC(Len(e.ans) = Len(e.a) /\ \A p \in 1..Len(e.a) :
            FClose(FTimes(Len(e.a[p]), e.ans[p]), FSum(TLCEval([k \in 1..Len(e.a[p]) |-> Dot(e.a[p][k], e.b[p][k])])), E9), "scalar product: wrong value")
       \cup RC(e.kept, "scalar product: the arguments were modified")
JudgeSqrtPos(e) ==
  IF FLt(e.tol, Zero) \/ \E k \in 1..Len(e.x) : FLt(e.x[k], FNeg(e.tol)) THEN RC(LibErr(e), "root: a negative number was not refused")
  ELSE IF e.err /= "" THEN {"root: unexpected error " \o e.err}
  ELSE RC(e.sh = e.xsh /\ Len(e.r) = Len(e.x) /\ \A k \in 1..Len(e.x) :
            FNonNeg(e.r[k]) /\ FClose(FMul(e.r[k], e.r[k]), FMax(Zero, e.x[k]), E9), "root: wrong value")
       \cup RC(e.kept, "root: the argument was modified")

Judge(e) ==
  CASE e.op = "transl" -> JudgeTransl(e) [] e.op = "maxdir" -> JudgeMaxDir(e) [] e.op = "maxtr" -> JudgeMaxTr(e)
    [] e.op = "ml" -> JudgeMl(e) [] e.op = "orth" -> JudgeOrth(e)
    [] e.op = "notdeg" -> JudgeNotDeg(e) [] e.op = "symm" -> JudgeSymm(e) [] e.op = "posdef" -> JudgePosDef(e)
    [] e.op = "sqrtm" -> JudgeSqrtm(e) [] e.op = "regpd" -> JudgeRegPd(e) [] e.op = "reg" -> JudgeReg(e) [] e.op = "real" -> JudgeReal(e)
    [] e.op = "quad" -> JudgeQuad(e) [] e.op = "inv" -> JudgeInv(e) [] e.op = "simdiag" -> JudgeSimDiag(e) [] e.op = "valign" -> JudgeValign(e)
    [] e.op = "fusion" -> JudgeFusion(e) [] e.op = "ball" -> JudgeBall(e)
    [] e.op = "sort" -> JudgeSort(e) [] e.op = "matdot" -> JudgeMatDot(e) [] e.op = "sqrtpos" -> JudgeSqrtPos(e)
=============================================================================
