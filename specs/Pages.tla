---------------------------------- MODULE Pages ----------------------------------
(***************************************************************************)
(* Stacks of matrices: every operation is the ordinary operation on every  *)
(* page (P22); stacks built from formulas and functions hold the value at  *)
(* every time point (P23).  A stack is the sequence of its pages, a page   *)
(* is a sequence of rows, a formula is a tree.                             *)
(***************************************************************************)
EXTENDS Fx
RC(cond, why) == IF cond THEN {} ELSE {why}
Fin(x) == Len(x) = 6
AllFin(m) == \A k \in 1..Len(m) : \A j \in 1..Len(m[k]) : Fin(m[k][j])
IsNan(m) == \A k \in 1..Len(m) : \A j \in 1..Len(m[k]) : m[k][j] = <<1>>
HasNan(m) == \E k \in 1..Len(m) : \E j \in 1..Len(m[k]) : m[k][j] = <<1>>
LibErr(e) == e.err \in {"lib:wrongInput", "lib:wrongSizes", "lib:wrongDim", "lib:wrong_input"}
At(s, k) == IF Len(s) = 1 THEN s[1] ELSE s[k]
Map(F(_), s) == TLCEval([k \in 1..Len(s) |-> F(s[k])])
Scalar(m) == Len(m) = 1 /\ Len(m[1]) = 1
Mul(x, y) == IF Scalar(x) THEN MScale(x[1][1], y) ELSE IF Scalar(y) THEN MScale(y[1][1], x) ELSE MatMul(x, y)
Cong(b, a) == MatMul(Transp(a), MatMul(b, a))          \* a' b a
Upper(m) == TLCEval([k \in 1..Len(m) |-> TLCEval([j \in 1..Len(m[k]) |-> IF j < k THEN Zero ELSE m[k][j]])])
Sym(m) == MScale(Half, MAdd(m, Transp(m)))
Shift(m, t) == MSub(m, MScale(t, Ident(Len(m))))
\* the page o is m up to rounding
Same(o, m) == Len(o) = Len(m) /\ (\A k \in 1..Len(m) : Len(o[k]) = Len(m[k])) /\ AllFin(o) /\ MClose(o, m, E9)
\* the output stack of the event has the given pages (and is three-dimensional)
Stack(e, pages) ==
  IF e.sh /= <<Len(pages[1]), Cols(pages[1]), Len(pages)>> THEN {e.op \o ": wrong shape"}
  ELSE RC(\A k \in 1..Len(pages) : Same(e.o[k], pages[k]), e.op \o ": a page is not the ordinary result")
Ok(e, reasons) == IF e.err /= "" THEN {e.op \o ": unexpected error " \o e.err} ELSE reasons \cup RC(e.kept, e.op \o ": an argument was modified")

(* ------------------------------------------------------- unary operations *)
JudgeUnary(e) ==
  Ok(e, CASE e.op = "triu" -> Stack(e, Map(Upper, e.a)) [] e.op = "symm" -> Stack(e, Map(Sym, e.a)) [] OTHER -> Stack(e, Map(Transp, e.a)))
Penrose(m, x) == LET mx == MatMul(m, x)  xm == MatMul(x, m) IN
  /\ Symmetric(mx, E7) /\ Symmetric(xm, E7) /\ MNear(MatMul(mx, m), m, E7) /\ MNear(MatMul(xm, x), x, E7)
JudgePinv(e) ==
  Ok(e, IF e.sh /= <<Cols(e.a[1]), Len(e.a[1]), Len(e.a)>> THEN {"pinv: wrong shape"}
        ELSE RC(\A k \in 1..Len(e.a) : AllFin(e.o[k]) /\ Penrose(e.a[k], e.o[k]), "pinv: a page is not the pseudo-inverse"))
\* operations that keep the number of dimensions of the argument
SameDims(e) == e.sh = e.ash
JudgeInv(e) ==
  Ok(e, RC(SameDims(e) /\ \A k \in 1..Len(e.a) : AllFin(e.o[k]) /\ MNear(MatMul(e.o[k], e.a[k]), Ident(Len(e.a[k])), E7), "inv: a page is not the inverse"))
Unitless(m) == FDiv(One, FAdd(One, MMaxAbs(m)))
Negative(m) == ~PSD(MScale(Unitless(m), m), E6)          \* clearly not positive semidefinite
Positive(m) == PD(MScale(Unitless(m), m), E6)
JudgeSqrtm(e) ==
  LET live == { k \in 1..Len(e.a) : ~HasNan(e.a[k]) } IN
  IF \E k \in live : Negative(e.a[k]) \/ ~Symmetric(e.a[k], Zero) THEN RC(LibErr(e), "sqrtm: an indefinite or asymmetric page was not refused")
  ELSE IF (\E k \in live : ~Positive(e.a[k])) /\ LibErr(e) THEN {}
  ELSE Ok(e, IF ~SameDims(e) THEN {"sqrtm: wrong shape"} ELSE
     RC(\A k \in 1..Len(e.a) : k \in live \/ IsNan(e.o[k]), "sqrtm: a page with nans got numbers")
     \cup RC(\A k \in live : LET r == e.o[k] IN AllFin(r) /\ Symmetric(r, E8) /\ PSD(r, E6) /\ MNear(MatMul(r, r), e.a[k], FMul(E6, FAdd(One, MMaxAbs(e.a[k])))),
             "sqrtm: a page is not the square root"))
JudgePosNan(e) ==
  Ok(e, RC(\A k \in 1..Len(e.a) : IF Positive(e.a[k]) THEN e.o[k] = e.a[k] ELSE IF Negative(e.a[k]) THEN IsNan(e.o[k]) ELSE e.o[k] = e.a[k] \/ IsNan(e.o[k]),
           "posnan: wrong page") \cup RC(SameDims(e) \/ (Len(e.ash) = 2 /\ e.sh = << >>), "posnan: wrong shape"))
\* eigenvalues below zero become v, the others stay
Lifted(m, r, v) ==
  LET s == Unitless(m)  a == MScale(s, m)  q == MScale(s, r)  w == FMul(s, v)  d == MSub(q, a)  ad == MatMul(a, d)
      lax == FAdd(E7, FMul(FInt(4), w)) IN
  /\ Symmetric(r, E8) /\ PSD(Sym(q), E7) /\ PSD(Sym(d), E7)
  /\ Symmetric(ad, E7) /\ PSD(MScale(FInt(-1), Sym(ad)), E7)
  /\ MNear(MatMul(d, Shift(q, w)), ZeroMat(Len(m), Len(m)), E8)
JudgePosEig(e) ==
  IF \E k \in 1..Len(e.a) : ~Symmetric(e.a[k], Zero) THEN RC(LibErr(e), "poseig: an asymmetric page was not refused")
  ELSE Ok(e, RC(SameDims(e) /\ \A k \in 1..Len(e.a) : AllFin(e.o[k]) /\ Lifted(e.a[k], e.o[k], e.v), "poseig: a page is not repaired as required"))

(* ---------------------------------------------------------------- products *)
JudgeMul(e) ==
  LET n == Len(e.a) IN
  IF Len(e.b) \notin {1, n} THEN RC(e.err /= "", "rmul: stacks of different length were multiplied")
  ELSE LET ab == TLCEval([k \in 1..n |-> Mul(e.a[k], At(e.b, k))])
       IN Ok(e, Stack(e, IF e.tern THEN TLCEval([k \in 1..n |-> Mul(ab[k], At(e.c, k))]) ELSE ab))
\* v: list of vectors, one for each page
Vecs(e, vs) == IF e.sh /= <<Len(vs[1]), Len(vs)>> THEN {e.op \o ": wrong shape"}
               ELSE RC(\A k \in 1..Len(vs) : \A j \in 1..Len(vs[k]) : Fin(e.o[1][j][k]) /\ FClose(e.o[1][j][k], vs[k][j], E8), e.op \o ": a column is not the ordinary product")
JudgeMulVec(e) ==
  IF e.vnd /= 2 THEN RC(LibErr(e), e.op \o ": vectors that are not the columns of a matrix were not refused")
  ELSE Ok(e, Vecs(e, TLCEval([k \in 1..Len(e.v) |-> MatVec(At(e.a, k), e.v[k])])))
JudgeLr(e) ==
  LET n == IF Len(e.a) > Len(e.b) THEN Len(e.a) ELSE Len(e.b)
      page(k) == IF e.flag = "R" THEN Cong(At(e.b, k), At(e.a, k)) ELSE Cong(At(e.b, k), Transp(At(e.a, k)))
      w == TLCEval([k \in 1..n |-> page(k)]) IN
  IF e.flag \notin {"R", "L"} THEN RC(LibErr(e), e.op \o ": a wrong flag was not refused")
  ELSE Ok(e, IF e.flat THEN RC(e.sh = <<Len(w[1]), Len(w[1])>> /\ Same(e.o[1], w[1]), e.op \o ": not the ordinary congruence") ELSE Stack(e, w))
\* quadratic forms <v, B v>, shape (1, number of vectors)
JudgeLrVec(e) ==
  Ok(e, RC(e.sh = <<1, Len(e.v)>> /\ \A k \in 1..Len(e.v) : Fin(e.o[1][1][k]) /\ FClose(e.o[1][1][k], Quad(At(e.b, k), e.v[k]), E8), e.op \o ": not the quadratic form"))
\* <v, B^-1 v>
InvForm(q, d) == FNeg(Det(Border(q, d, Zero)))
JudgeDiv(e) ==
  LET n == IF Len(e.b) > Len(e.v) THEN Len(e.b) ELSE Len(e.v) IN
  Ok(e, RC(e.sh = (IF e.flat THEN <<1, 1>> ELSE <<n>>) /\ Len(e.q) = n
           /\ \A k \in 1..n : Fin(e.q[k]) /\ FClose(FMul(e.q[k], Det(At(e.b, k))), InvForm(At(e.b, k), IF Len(e.v) = 1 THEN e.v[1] ELSE e.v[k]), E7),
           e.op \o ": not the quotient"))

(* --------------------------------------------------------------- formulas *)
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN One ELSE FMul(x, Pow(x, n - 1))
RECURSIVE Value(_, _)
Value(f, t) ==
  CASE f.k = "t" -> t
    [] f.k = "c" -> f.v
    [] f.k = "add" -> FAdd(Value(f.a, t), Value(f.b, t))
    [] f.k = "sub" -> FSub(Value(f.a, t), Value(f.b, t))
    [] f.k = "mul" -> FMul(Value(f.a, t), Value(f.b, t))
    [] f.k = "div" -> FDivInt(Value(f.a, t), f.n)
    [] f.k = "pow" -> Pow(Value(f.a, t), f.n)
    [] f.k = "neg" -> FNeg(Value(f.a, t))
    [] f.k = "sin" -> FSin(Value(f.a, t))
    [] f.k = "cos" -> FCos(Value(f.a, t))
    [] f.k = "exp" -> FExp(Value(f.a, t))
    [] f.k = "abs" -> FAbs(Value(f.a, t))
    [] f.k = "sqrt" -> FSqrt(Value(f.a, t))
RECURSIVE Depends(_)
Depends(f) == CASE f.k = "t" -> TRUE [] f.k = "c" -> FALSE [] f.k \in {"add", "sub", "mul"} -> Depends(f.a) \/ Depends(f.b) [] OTHER -> Depends(f.a)
\* f: matrix of formulas; t: time points
MatAt(f, t) == TLCEval([i \in 1..Len(f) |-> TLCEval([j \in 1..Len(f[i]) |-> Value(f[i][j], t)])])
JudgeFormula(e) ==
  IF e.empty THEN RC(LibErr(e), e.op \o ": an empty expression was not refused")
  ELSE Ok(e, IF e.sh /= <<Len(e.f), Len(e.f[1]), Len(e.t)>> THEN {e.op \o ": wrong shape"}
             ELSE RC(\A k \in 1..Len(e.t) : LET w == MatAt(e.f, e.t[k]) IN AllFin(e.o[k]) /\ MClose(e.o[k], w, E8), e.op \o ": a page is not the value at its time point"))
(* evaluation of a function page by page *)
FunScalar(name, m) == CASE name = "trace" -> TraceOf(m) [] name = "sum" -> FSum(Map(LAMBDA r : FSum(r), m)) [] name = "corner" -> m[1][Len(m[1])] [] name = "sq" -> FSum(Map(LAMBDA r : Dot(r, r), m))
FunMat(name, m) == CASE name = "same" -> m [] name = "double" -> MScale(Two, m) [] name = "sqm" -> MatMul(m, m) [] name = "transp" -> Transp(m) [] name = "shift" -> MAdd(m, [i \in 1..Len(m) |-> [j \in 1..Len(m[i]) |-> Half]])
JudgeEval(e) ==
  LET n == Len(e.a) IN
  Ok(e, CASE e.mode = "uniform" -> RC(e.sh = <<n>> /\ Len(e.q) = n /\ \A k \in 1..n : Fin(e.q[k]) /\ FClose(e.q[k], FunScalar(e.fun, e.a[k]), E9), "evalf: wrong value")
          [] e.mode = "keep" -> Stack(e, Map(LAMBDA m : FunMat(e.fun, m), e.a))
          [] OTHER -> RC(Len(e.o) = n /\ e.islist /\ \A k \in 1..n : Same(e.o[k], FunMat(e.fun, e.a[k])), "evalf: wrong list of values"))

Judge(e) ==
  CASE e.op \in {"triu", "symm", "transp"} -> JudgeUnary(e) [] e.op = "pinv" -> JudgePinv(e) [] e.op = "inv" -> JudgeInv(e)
    [] e.op = "sqrtm" -> JudgeSqrtm(e) [] e.op = "posnan" -> JudgePosNan(e) [] e.op = "poseig" -> JudgePosEig(e)
    [] e.op = "rmul" -> JudgeMul(e) [] e.op \in {"rmulvec", "svdrvec"} -> JudgeMulVec(e)
    [] e.op \in {"lr", "svdlr"} -> JudgeLr(e) [] e.op \in {"lrvec", "svdlrvec"} -> JudgeLrVec(e)
    [] e.op \in {"div", "svddiv"} -> JudgeDiv(e)
    [] e.op \in {"formula", "expr", "func"} -> JudgeFormula(e) [] e.op = "evalf" -> JudgeEval(e)
=============================================================================
