---------------------------------- MODULE Fx ----------------------------------
(***************************************************************************)
(* Exact fixed-point real arithmetic in pure TLA+.                         *)
(*                                                                         *)
(* TLC integers are 32 bit, so a real number is a tuple of six limbs in    *)
(* base 10^4, least significant first,                                     *)
(*     value = sum_k limb[k] * 10^(4*(k-1) - 12),                          *)
(* i.e. with twelve decimals.  Limbs 1..5 are in 0..9999, the last limb    *)
(* carries the sign.  Addition and subtraction are exact; a product is     *)
(* rounded down to twelve decimals.  An overflow of the last limb makes    *)
(* TLC stop with an error instead of wrapping around.                      *)
(* A non-finite or out-of-range machine number is recorded as a tuple of   *)
(* length one and is rejected by IsFx.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

FMul(a, b) ==
  LET
      c0 == a[1]*b[1]
      c1 == a[1]*b[2] + a[2]*b[1] + (c0 \div 10000)
      c2 == a[1]*b[3] + a[2]*b[2] + a[3]*b[1] + (c1 \div 10000)
      c3 == a[1]*b[4] + a[2]*b[3] + a[3]*b[2] + a[4]*b[1] + (c2 \div 10000)
      c4 == a[1]*b[5] + a[2]*b[4] + a[3]*b[3] + a[4]*b[2] + a[5]*b[1] + (c3 \div 10000)
      c5 == a[1]*b[6] + a[2]*b[5] + a[3]*b[4] + a[4]*b[3] + a[5]*b[2] + a[6]*b[1] + (c4 \div 10000)
      c6 == a[2]*b[6] + a[3]*b[5] + a[4]*b[4] + a[5]*b[3] + a[6]*b[2] + (c5 \div 10000)
      c7 == a[3]*b[6] + a[4]*b[5] + a[5]*b[4] + a[6]*b[3] + (c6 \div 10000)
      c8 == a[4]*b[6] + a[5]*b[5] + a[6]*b[4] + (c7 \div 10000)
      c9 == a[5]*b[6] + a[6]*b[5]
      c10 == a[6]*b[6]
  IN << c3 % 10000, c4 % 10000, c5 % 10000, c6 % 10000, c7 % 10000, c8 + 10000*c9 + 100000000*c10 >>
FAdd(a, b) ==
  LET
      c0 == a[1] + b[1]
      c1 == a[2] + b[2] + (c0 \div 10000)
      c2 == a[3] + b[3] + (c1 \div 10000)
      c3 == a[4] + b[4] + (c2 \div 10000)
      c4 == a[5] + b[5] + (c3 \div 10000)
      c5 == a[6] + b[6] + (c4 \div 10000)
  IN << c0 % 10000, c1 % 10000, c2 % 10000, c3 % 10000, c4 % 10000, c5 >>
FSub(a, b) ==
  LET
      c0 == a[1] - b[1]
      c1 == a[2] - b[2] + (c0 \div 10000)
      c2 == a[3] - b[3] + (c1 \div 10000)
      c3 == a[4] - b[4] + (c2 \div 10000)
      c4 == a[5] - b[5] + (c3 \div 10000)
      c5 == a[6] - b[6] + (c4 \div 10000)
  IN << c0 % 10000, c1 % 10000, c2 % 10000, c3 % 10000, c4 % 10000, c5 >>

Zero == <<0,0,0,0,0,0>>
One  == <<0,0,0,1,0,0>>
Two  == <<0,0,0,2,0,0>>
Half == <<0,0,5000,0,0,0>>
Pi   == <<3590,9265,1415,3,0,0>>          \* 3.141592653590

IsFx(a) == Len(a) = 6
NonFinite == {<<1>>, <<2>>, <<3>>, <<4>>}  \* nan, +inf, -inf, out of range

FNeg(a) == FSub(Zero, a)
FNonNeg(a) == a[6] >= 0
FLe(a, b) == FSub(b, a)[6] >= 0
FLt(a, b) == FSub(a, b)[6] < 0
FAbs(a) == IF a[6] >= 0 THEN a ELSE FNeg(a)
FMax(a, b) == IF FLe(a, b) THEN b ELSE a
FMin(a, b) == IF FLe(a, b) THEN a ELSE b
FInt(n) == LET q == n \div 10000 IN <<0,0,0, n % 10000, q % 10000, q \div 10000>>
\* n * 10^(-4 k), k in 0..3
FScaled(n, k) == LET a == n % 10000  q == n \div 10000  b == q % 10000  r == q \div 10000
                 IN CASE k = 3 -> <<a, b, r % 10000, r \div 10000, 0, 0>>
                      [] k = 2 -> <<0, a, b, r % 10000, r \div 10000, 0>>
                      [] k = 1 -> <<0, 0, a, b, r % 10000, r \div 10000>>
                      [] OTHER -> <<0, 0, 0, a, b, r>>
FSq(a) == FMul(a, a)
FTimes(n, a) == FMul(FInt(n), a)

\* |a - b| <= tol
FNear(a, b, tol) == LET d == FAbs(FSub(a, b)) IN FLe(d, tol)
\* |a - b| <= tol * (1 + |a| + |b|)
FClose(a, b, tol) == FLe(FAbs(FSub(a, b)), FMul(tol, FAdd(One, FAdd(FAbs(a), FAbs(b)))))

E4  == <<0,0,1,0,0,0>>
E5  == <<0,1000,0,0,0,0>>
E6  == <<0,100,0,0,0,0>>
E7  == <<0,10,0,0,0,0>>
E8  == <<0,1,0,0,0,0>>
E9  == <<1000,0,0,0,0,0>>
E10 == <<100,0,0,0,0,0>>

(***************************************************************************)
(* Division and square root: a leading-digit estimate of the reciprocal    *)
(* and a few corrections, each gaining four digits.                        *)
(***************************************************************************)
Ten == <<1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000>>
\* n * 10^p units of 10^-12, for 0 <= n < 10^6, p <= 19
Units(n, p) ==
  IF p < 0 THEN (IF p < -8 THEN Zero ELSE LET q == n \div Ten[1 - p] IN <<q % 10000, (q \div 10000) % 10000, 0, 0, 0, 0>>)
  ELSE LET v == n * Ten[(p % 4) + 1]
           j == (p \div 4) + 1
           x == v % 10000  y == (v \div 10000) % 10000  z == v \div 100000000
       IN CASE j = 1 -> <<x, y, z, 0, 0, 0>> [] j = 2 -> <<0, x, y, z, 0, 0>>
            [] j = 3 -> <<0, 0, x, y, z, 0>> [] j = 4 -> <<0, 0, 0, x, y, z>>
            [] OTHER -> <<0, 0, 0, 0, x, y + 10000 * z>>
Top(a) == CHOOSE j \in 1..6 : a[j] > 0 /\ \A k \in (j + 1)..6 : a[k] = 0
Digits(n) == CASE n < 10 -> 1 [] n < 100 -> 2 [] n < 1000 -> 3 [] n < 10000 -> 4
               [] n < 100000 -> 5 [] n < 1000000 -> 6 [] n < 10000000 -> 7 [] OTHER -> 8
\* leading digits of a > 0: a = (about) Lead(a)[1] * 10^Lead(a)[2] units, Lead(a)[1] in 10^4..10^5-1
Lead(a) == LET j == Top(a)
               m == a[j] * 10000 + (IF j > 1 THEN a[j - 1] ELSE 0)
               m2 == IF m < 10000 THEN a[j] * 10000 ELSE m
               d == Digits(m2)
               e == 4 * (j - 2)
           IN <<m2 \div Ten[d - 4], e + (d - 5)>>
\* about 1 / b
Recip(b) == LET l == Lead(b)  r == 1000000000 \div l[1]      \* 10^9 / m in 10^4..10^5
            IN Units(r, 15 - l[2])                         \* 1/(m 10^(e-12)) = r 10^(-9-e+12) = r 10^(15-e) units
RECURSIVE DivFix(_, _, _, _, _)
DivFix(a, b, r, q, n) == IF n = 0 THEN q ELSE DivFix(a, b, r, FAdd(q, FMul(FSub(a, FMul(b, q)), r)), n - 1)
\* a / b for b > 0
FDiv(a, b) == LET r == Recip(b) IN DivFix(a, b, r, FMul(a, r), 5)
RECURSIVE ISqrt(_, _)
ISqrt(n, x) == LET y == (x + (n \div x)) \div 2 IN IF y >= x THEN x ELSE ISqrt(n, y)
RECURSIVE SqrtFix(_, _, _, _)
SqrtFix(a, r, x, n) == IF n = 0 THEN x ELSE SqrtFix(a, r, FAdd(x, FMul(FSub(a, FMul(x, x)), r)), n - 1)
\* square root of a (0 for a <= 0)
FSqrt(a) ==
  IF ~FNonNeg(a) \/ a = Zero THEN Zero
  ELSE LET l == Lead(a)
           even == l[2] % 2 = 0                              \* a = m 10^e units with e even
           m == IF even THEN l[1] * 100 ELSE l[1] * 10
           e == IF even THEN l[2] - 2 ELSE l[2] - 1
           x0 == ISqrt(m, 10000)
           p == 6 + (e \div 2)                               \* sqrt(m 10^(e-12)) = x0 10^(e/2+6) units
           x == Units(x0, p)
       IN IF x = Zero THEN Zero ELSE SqrtFix(a, FMul(Half, Recip(x)), x, 4)

(* division by a small whole number, exponential and trigonometric series *)
RECURSIVE DivInt(_, _, _, _)
DivInt(a, n, j, r) == IF j = 0 THEN << >> ELSE LET x == r * 10000 + a[j] IN Append(DivInt(a, n, j - 1, x % n), x \div n)
FDivInt(a, n) == DivInt(a, n, 5, a[6] % n) \o <<a[6] \div n>>     \* a / n for 0 < n < 10^4
RECURSIVE Series(_, _, _, _, _, _)
\* sum of term * (sg x^2)/((k+1)(k+2)) ... : every second term of the exponential series
Series(term, acc, y, k, step, n) ==
  IF n = 0 THEN acc
  ELSE LET t == IF step = 1 THEN FDivInt(FMul(term, y), k + 1) ELSE FDivInt(FMul(term, y), (k + 1) * (k + 2))
       IN Series(t, FAdd(acc, t), y, k + step, step, n - 1)
FExp(x) == Series(One, One, x, 0, 1, 45)
FCos(x) == Series(One, One, FNeg(FMul(x, x)), 0, 2, 22)
FSin(x) == Series(x, x, FNeg(FMul(x, x)), 1, 2, 22)

(***************************************************************************)
(* Vectors (sequences) and matrices (sequences of rows).                   *)
(***************************************************************************)
IsVec(v) == \A k \in 1..Len(v) : IsFx(v[k])
IsMat(m) == \A k \in 1..Len(m) : IsVec(m[k])
Rows(m) == Len(m)
Cols(m) == IF Len(m) = 0 THEN 0 ELSE Len(m[1])
HasShape(m, r, c) == Len(m) = r /\ \A k \in 1..r : Len(m[k]) = c

RECURSIVE SumSeq(_, _)
SumSeq(s, n) == IF n = 0 THEN Zero ELSE FAdd(SumSeq(s, n - 1), s[n])
FSum(s) == SumSeq(s, Len(s))
RECURSIVE DotN(_, _, _)
DotN(u, v, n) == IF n = 0 THEN Zero ELSE FAdd(DotN(u, v, n - 1), FMul(u[n], v[n]))
Dot(u, v) == DotN(u, v, Len(u))
VAdd(u, v) == TLCEval([k \in 1..Len(u) |-> FAdd(u[k], v[k])])
VSub(u, v) == TLCEval([k \in 1..Len(u) |-> FSub(u[k], v[k])])
VNeg(u) == TLCEval([k \in 1..Len(u) |-> FNeg(u[k])])
VScale(a, u) == TLCEval([k \in 1..Len(u) |-> FMul(a, u[k])])
VNear(u, v, tol) == Len(u) = Len(v) /\ \A k \in 1..Len(u) : FNear(u[k], v[k], tol)
VClose(u, v, tol) == Len(u) = Len(v) /\ \A k \in 1..Len(u) : FClose(u[k], v[k], tol)
ZeroVec(n) == TLCEval([k \in 1..n |-> Zero])
Norm2(u) == Dot(u, u)
Col(m, j) == TLCEval([k \in 1..Len(m) |-> m[k][j]])
Transp(m) == TLCEval([j \in 1..Cols(m) |-> Col(m, j)])
MatVec(m, v) == TLCEval([k \in 1..Len(m) |-> Dot(m[k], v)])
MatMul(a, b) == LET bt == Transp(b) IN TLCEval([k \in 1..Len(a) |-> TLCEval([j \in 1..Len(bt) |-> Dot(a[k], bt[j])])])
MAdd(a, b) == TLCEval([k \in 1..Len(a) |-> VAdd(a[k], b[k])])
MSub(a, b) == TLCEval([k \in 1..Len(a) |-> VSub(a[k], b[k])])
MScale(x, a) == TLCEval([k \in 1..Len(a) |-> VScale(x, a[k])])
MNear(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : VNear(a[k], b[k], tol)
MClose(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : VClose(a[k], b[k], tol)
Ident(n) == TLCEval([k \in 1..n |-> TLCEval([j \in 1..n |-> IF j = k THEN One ELSE Zero])])
ZeroMat(r, c) == TLCEval([k \in 1..r |-> ZeroVec(c)])
Outer(u, v) == TLCEval([k \in 1..Len(u) |-> VScale(u[k], v)])
TraceOf(m) == FSum([k \in 1..Len(m) |-> m[k][k]])
Quad(m, v) == Dot(v, MatVec(m, v))
Symmetric(m, tol) == \A k \in 1..Len(m) : \A j \in 1..k : FNear(m[k][j], m[j][k], tol)
RECURSIVE VMaxAbs(_, _)
VMaxAbs(v, n) == IF n = 0 THEN Zero ELSE FMax(VMaxAbs(v, n - 1), FAbs(v[n]))
MaxAbs(v) == VMaxAbs(v, Len(v))
MMaxAbs(m) == MaxAbs([k \in 1..Len(m) |-> MaxAbs(m[k])])

DropAt(s, j) == TLCEval([k \in 1..(Len(s) - 1) |-> IF k < j THEN s[k] ELSE s[k + 1]])
\* determinant of the rows r.. of m restricted to the columns cs (as many columns as rows)
RECURSIVE DetRows(_, _, _)
DetRows(m, r, cs) ==
  LET n == Len(cs)  row == m[r] IN
  CASE n = 0 -> One
    [] n = 1 -> row[cs[1]]
    [] n = 2 -> LET s == m[r + 1] IN FSub(FMul(row[cs[1]], s[cs[2]]), FMul(row[cs[2]], s[cs[1]]))
    [] OTHER ->
        LET term(j) == LET x == row[cs[j]] IN
                       IF x = Zero THEN Zero
                       ELSE LET d == FMul(x, DetRows(m, r + 1, DropAt(cs, j)))
                            IN IF j % 2 = 1 THEN d ELSE FNeg(d)
            RECURSIVE acc(_)
            acc(j) == IF j = 0 THEN Zero ELSE FAdd(acc(j - 1), term(j))
        IN acc(n)
DetCof(m) == IF Len(m) = 0 THEN One ELSE DetRows(m, 1, TLCEval([k \in 1..Len(m) |-> k]))
\* larger matrices: elimination with complete pivoting as long as the pivot is not small
DropBoth(m, i, j) == LET s == DropAt(m, i) IN TLCEval([k \in 1..Len(s) |-> DropAt(s[k], j)])
RECURSIVE Det(_)
Det(m) ==
  IF Len(m) < 6 THEN DetCof(m)
  ELSE LET top == MMaxAbs(m) IN
       IF FLt(top, <<0,0,100,0,0,0>>) THEN DetCof(m)
       ELSE LET i == CHOOSE k \in 1..Len(m) : MaxAbs(m[k]) = top
                j == CHOOSE k \in 1..Len(m) : FAbs(m[i][k]) = top
                pos == FNonNeg(m[i][j])
                f == TLCEval([k \in 1..Len(m) |-> IF k = i \/ m[k][j] = Zero THEN Zero
                                              ELSE LET x == FDiv(m[k][j], top) IN IF pos THEN x ELSE FNeg(x)])
                rest == DropBoth(TLCEval([k \in 1..Len(m) |-> IF f[k] = Zero THEN m[k] ELSE VSub(m[k], VScale(f[k], m[i]))]), i, j)
                d == FMul(top, Det(rest))
            IN IF pos = ((i + j) % 2 = 0) THEN d ELSE FNeg(d)

\* increasing enumeration of a finite set of integers
RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN << >>
                ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortedSeq(S \ {m})
SubMat(m, S) == LET s == SortedSeq(S) IN TLCEval([k \in 1..Len(s) |-> TLCEval([j \in 1..Len(s) |-> m[s[k]][s[j]]])])
PrincipalMinors(m) == { Det(SubMat(m, S)) : S \in (SUBSET (1..Len(m))) \ {{}} }
\* all principal minors at least -eps
PSD(m, eps) == \A S \in (SUBSET (1..Len(m))) \ {{}} : FLe(FNeg(eps), Det(SubMat(m, S)))
\* all leading minors above eps
PD(m, eps) == \A n \in 1..Len(m) : FLt(eps, Det(SubMat(m, 1..n)))
\* rank of a positive semidefinite matrix, minors below eps counting as zero
RankPSD(m, eps) == LET good == { Cardinality(S) : S \in { T \in SUBSET (1..Len(m)) : FLt(eps, Det(SubMat(m, T))) } }
                   IN CHOOSE r \in good \cup {0} : \A t \in good : t <= r
\* the matrix bordered by the vector d and the number s
Border(m, d, s) == TLCEval([k \in 1..(Len(m) + 1) |->
                      IF k <= Len(m) THEN Append(m[k], d[k]) ELSE Append(d, s)])
=============================================================================
