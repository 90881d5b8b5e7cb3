--------------------------------- MODULE Compare ---------------------------------
(***************************************************************************)
(* Comparison: numeric arrays with absolute and relative tolerance (P08),  *)
(* nested dictionaries (P09), ellipsoids and hyperplanes (P07).            *)
(*                                                                         *)
(* Recorded numbers are multiples of 1/64 for P08 and P09, so every        *)
(* decision is exact: numbers exactly at the tolerance count as equal.     *)
(* Missing relative tolerance: <<>>.                                       *)
(***************************************************************************)
EXTENDS Fx
RC(cond, why) == IF cond THEN {} ELSE {why}
Nan == <<1>>
PInf == <<2>>
MInf == <<3>>
Fin(x) == Len(x) = 6

(* ---------------------------------------------------- numeric arrays ----- *)
\* same not-a-number and infinite entries at the same places
SameMask(l, r) == \A k \in 1..Len(l) : (Fin(l[k]) /\ Fin(r[k])) \/ l[k] = r[k]
ZeroOut(v) == TLCEval([k \in 1..Len(v) |-> IF Fin(v[k]) THEN v[k] ELSE Zero])
AbsV(v) == TLCEval([k \in 1..Len(v) |-> FAbs(v[k])])
\* the norms used: entrywise modulus, sum of moduli, greatest modulus of every column
Norm(kind, cols, v) ==
  CASE kind = "abs" -> AbsV(v)
    [] kind = "sum" -> <<FSum(AbsV(v))>>
    [] kind = "col" -> TLCEval([j \in 1..cols |-> MaxAbs(TLCEval([i \in 1..(Len(v) \div cols) |-> v[(i - 1) * cols + j]]))])
\* differences d, sums of norms s; index set decided by the relative tolerance
RelSet(d, s, at) == { k \in 1..Len(d) : FLt(at, d[k]) /\ FLt(at, s[k]) }
MaxOf(d, S) == LET k == CHOOSE k \in S : \A j \in S : FLe(d[j], d[k]) IN d[k]
Ratio(d, s, k) == FDiv(FTimes(2, d[k]), s[k])
\* indices with the greatest ratio d/s, decided by cross multiplication
TopRatio(d, s, S) == { k \in S : \A j \in S : FLe(FMul(d[j], s[k]), FMul(d[k], s[j])) }
\* moduli of complex entries, exact where they have eight decimals
Round8(m) == IF m[1] >= 5000 THEN FAdd([m EXCEPT ![1] = 0], <<0, 1, 0, 0, 0, 0>>) ELSE [m EXCEPT ![1] = 0]
Mod1(x, y) ==
  IF y = Zero THEN FAbs(x)
  ELSE LET s == FAdd(FSq(x), FSq(y))  m == FSqrt(s)  v == Round8(m) IN IF FSq(v) = s THEN v ELSE m
ModV(x, y) == TLCEval([k \in 1..Len(x) |-> Mod1(x[k], y[k])])
\* what the comparison answers: [eq, absd, trig, reld, absm] (<<>> where nothing is reported); imaginary parts li, ri
AbsRelC(l, li, r, ri, at, rt, kind, cols) ==
  IF ~SameMask(l, r) THEN [eq |-> FALSE, absd |-> <<Nan>>, trig |-> FALSE, reld |-> <<Nan>>, absm |-> <<Nan>>, ties |-> << >>]
  ELSE IF Len(l) = 0 THEN [eq |-> TRUE, absd |-> << >>, trig |-> FALSE, reld |-> << >>, absm |-> << >>, ties |-> << >>]
  ELSE LET zl == ZeroOut(l)  zr == ZeroOut(r)
           d == Norm(kind, cols, ModV(VSub(zl, zr), VSub(li, ri)))
           s == VAdd(Norm(kind, cols, ModV(zl, li)), Norm(kind, cols, ModV(zr, ri)))
           S == IF rt = << >> THEN {} ELSE RelSet(d, s, at)
           top == MaxOf(d, 1..Len(d))
       IN IF S = {} THEN [eq |-> FLe(top, at), absd |-> <<top>>, trig |-> FALSE, reld |-> << >>, absm |-> << >>, ties |-> << >>]
          ELSE LET R == TopRatio(d, s, S)  k == CHOOSE k \in R : TRUE IN
               [eq |-> (\A j \in (1..Len(d)) \ S : FLe(d[j], at)) /\ FLe(FTimes(2, d[k]), FMul(rt[1], s[k])),
                absd |-> <<top>>, trig |-> TRUE, reld |-> <<Ratio(d, s, k)>>, absm |-> <<MaxOf(d, R)>>,
                \* moduli of complex numbers are rounded: the greatest ratio may be shared
                ties |-> [j \in 1..Len(d) |-> IF j \in S /\ FClose(Ratio(d, s, IF j \in S THEN j ELSE k), Ratio(d, s, k), E9) THEN d[j] ELSE <<Nan>>]]
NoIm(v) == TLCEval([k \in 1..Len(v) |-> Zero])
AbsRel(l, r, at, rt, kind, cols) == AbsRelC(l, NoIm(l), r, NoIm(r), at, rt, kind, cols)
NearSeq(u, v) == Len(u) = Len(v) /\ \A k \in 1..Len(u) : u[k] = v[k] \/ (Fin(u[k]) /\ Fin(v[k]) /\ FClose(u[k], v[k], E9))
BadTol(t) == t = << >> \/ ~Fin(t[1]) \/ FLt(t[1], Zero)
JudgeArel(e) ==
  IF e.badargs \/ e.lsh /= e.rsh \/ BadTol(<<e.at>>) \/ (e.rt /= << >> /\ BadTol(e.rt))
  THEN RC(e.err = "lib:wrongInput", "comparison: wrong arguments were not refused")
  ELSE IF e.err /= "" THEN {"comparison: unexpected error " \o e.err}
  ELSE LET w == AbsRelC(e.l, IF e.li = << >> THEN NoIm(e.l) ELSE e.li, e.r, IF e.ri = << >> THEN NoIm(e.r) ELSE e.ri, e.at, e.rt, e.norm, e.cols) IN
       RC(e.eq = w.eq, "comparison: wrong answer")
       \cup RC(e.text = ~w.eq, "comparison: the report must be empty exactly on equality")
       \cup RC(NearSeq(e.absd, w.absd), "comparison: wrong absolute difference")
       \cup RC(e.trig = w.trig, "comparison: wrong use of the relative tolerance")
       \cup RC(NearSeq(e.reld, w.reld), "comparison: wrong relative difference")
       \cup RC(NearSeq(e.absm, w.absm) \/ (e.li # << >> /\ Len(e.absm) = 1 /\ \E k \in 1..Len(w.ties) : NearSeq(e.absm, <<w.ties[k]>>)), "comparison: wrong absolute difference at the greatest relative one")
       \cup RC(e.kept, "comparison: the arguments were modified")

(* ------------------------------------------------ nested dictionaries ---- *)
(* [t "num", ty, v]   a number of type ty                                   *)
(* [t "arr", ty, sh, v]  a numeric array     [t "str", s]     [t "none"]    *)
(* [t "list", l]  [t "strs", sh, l]  [t "dict", ks, vs] [t "dicts", sh, l]  *)
Keys(d) == { d.ks[k] : k \in 1..Len(d.ks) }
At(d, key) == d.vs[CHOOSE k \in 1..Len(d.ks) : d.ks[k] = key]
RECURSIVE SameTree(_, _, _, _)
SameTree(x, y, at, rt) ==
  x.t = y.t /\
  CASE x.t = "num"  -> x.ty = y.ty /\ AbsRel(x.v, y.v, at, rt, "abs", 1).eq
    [] x.t = "arr"  -> x.ty = y.ty /\ x.sh = y.sh /\ AbsRel(x.v, y.v, at, rt, "abs", 1).eq
    [] x.t = "str"  -> x.s = y.s
    [] x.t = "none" -> TRUE
    [] x.t = "strs" -> x.sh = y.sh /\ x.l = y.l
    [] x.t = "list" -> Len(x.l) = Len(y.l) /\ \A k \in 1..Len(x.l) : SameTree(x.l[k], y.l[k], at, rt)
    [] x.t = "dicts" -> x.sh = y.sh /\ \A k \in 1..Len(x.l) : SameTree(x.l[k], y.l[k], at, rt)
    [] x.t = "dict" -> Keys(x) = Keys(y) /\ \A key \in Keys(x) : SameTree(At(x, key), At(y, key), at, rt)
AllOf(s) == \A k \in 1..Len(s) : s[k]
JudgeDicts(e) ==   \* operands: [t "dict"] or [t "dicts"] (arrays and lists of dictionaries)
  IF e.err /= "" THEN {"dictionaries: unexpected error " \o e.err}
  ELSE LET wrap(x) == IF x.t = "dict" THEN [t |-> "dicts", sh |-> <<1>>, l |-> <<x>>] ELSE x
           x == wrap(e.x)  y == wrap(e.y)
           w == IF x.sh /= y.sh THEN <<FALSE>> ELSE [k \in 1..Len(x.l) |-> SameTree(x.l[k], y.l[k], e.at, e.rt)]
       IN RC(e.eq = AllOf(w), "dictionaries: wrong answer")
          \cup RC(e.each = w, "dictionaries: wrong answer for an element")
          \cup RC(e.text = ~AllOf(w) /\ e.vtext = ~AllOf(w), "dictionaries: the report must be empty exactly on equality")
          \cup RC(x.sh /= y.sh \/ \A k \in 1..Len(w) : w[k] \/ \E j \in 1..Len(e.lines) : e.lines[j] = k - 1,
                  "dictionaries: a differing element is missing in the report")
          \cup RC(e.kept, "dictionaries: the arguments were modified")
\* an operand that is neither a dictionary nor a list or array of dictionaries
JudgeBadDicts(e) == RC(e.err = "lib:wrongInput", "dictionaries: operands of another kind were not refused")

(* ------------------------------------------------ ellipsoids, planes ----- *)
\* three-valued comparison of two numbers: away from the tolerances
NumV(a, b, at, rt) ==
  LET d == FAbs(FSub(a, b))  s == FMul(Half, FMul(rt, FAdd(FAbs(a), FAbs(b))))
      lim == FMax(at, s)
  IN IF FLe(FTimes(3, d), FTimes(2, lim)) \/ FLe(d, E10) THEN "t" ELSE IF FLe(FTimes(3, lim), FTimes(2, d)) THEN "f" ELSE "any"
All3V(S) == IF "f" \in S THEN "f" ELSE IF "any" \in S THEN "any" ELSE "t"
VecV(u, v, at, rt) == IF Len(u) /= Len(v) THEN "f" ELSE All3V({ NumV(u[k], v[k], at, rt) : k \in 1..Len(u) })
MatV(a, b, at, rt) == IF Len(a) /= Len(b) THEN "f" ELSE All3V({ VecV(a[k], b[k], at, rt) : k \in 1..Len(a) })
\* o = [c, q, root, s]: the generator supplies the square root of the shape matrix, checked here
RootOk(o) == MNear(MatMul(o.root, o.root), o.q, E9) /\ Symmetric(o.root, E10)
             /\ (\A k \in 1..Len(o.root) : FNonNeg(o.root[k][k])) /\ PSD(o.root, E8)
EllV(a, b, at, rt, props) ==
  All3V({VecV(a.c, b.c, at, rt), MatV(a.root, b.root, at, rt)}
        \cup (IF props THEN { NumV(a.s[k], b.s[k], at, rt) : k \in 1..Len(a.s) } ELSE {}))
\* a plane <c, x> = q: unit normal and nonnegative shift; << >> for the empty one
EmptyPlane(o) == Len(o.c) = 1 /\ FLe(FAbs(o.c[1]), o.s[1]) /\ FLe(FAbs(o.q[1][1]), o.s[1])
HypV(a, b, at, rt, props) ==
  LET pv == IF props THEN { NumV(a.s[k], b.s[k], at, rt) : k \in 1..Len(a.s) } ELSE {}
      na == FSqrt(Norm2(a.c))  nb == FSqrt(Norm2(b.c))
      sa == FDiv(FAbs(a.q[1][1]), na)  sb == FDiv(FAbs(b.q[1][1]), nb)
      side(o, n) == LET i == FDiv(One, n) IN VScale(IF FNonNeg(o.q[1][1]) THEN i ELSE FNeg(i), o.c)
  IN IF EmptyPlane(a) \/ EmptyPlane(b) THEN All3V(pv \cup {IF EmptyPlane(a) /\ EmptyPlane(b) THEN "t" ELSE "f"})
     ELSE All3V(pv \cup {NumV(sa, sb, at, rt), VecV(side(a, na), side(b, nb), at, rt)})
PairV(e, a, b, at, rt) == IF e.kind = "e" THEN EllV(a, b, at, rt, e.props) ELSE HypV(a, b, at, rt, e.props)
MinTol(e, k) == LET S == { e.first[j].s[k] : j \in 1..Len(e.first) } \cup { e.second[j].s[k] : j \in 1..Len(e.second) }
                IN CHOOSE x \in S : \A y \in S : FLe(x, y)
JudgeEqual(e) ==
  LET n1 == Len(e.first)  n2 == Len(e.second)
      refuse == (n1 = 0) /= (n2 = 0) \/ (n1 > 1 /\ n2 > 1 /\ e.sh1 /= e.sh2)
  IN IF refuse THEN RC(e.err \in {"lib:wrongSizes", "lib:wrongInput"}, "equality: mismatched arrays must be refused")
     ELSE IF e.err /= "" THEN {"equality: unexpected error " \o e.err}
     ELSE IF n1 = 0 THEN RC(\A k \in 1..Len(e.eq) : e.eq[k], "equality: empty arrays are equal") \cup RC(~e.text, "equality: report on equality")
     ELSE LET at == MinTol(e, 1)  rt == MinTol(e, 2)
              n == IF n1 > n2 THEN n1 ELSE n2
              pick(s, k) == IF Len(s) = 1 THEN s[1] ELSE s[k]
              w == TLCEval([k \in 1..n |-> PairV(e, pick(e.first, k), pick(e.second, k), at, rt)])
          IN RC(e.kind = "h" \/ ((\A k \in 1..n1 : RootOk(e.first[k])) /\ (\A k \in 1..n2 : RootOk(e.second[k]))), "generator: wrong root")
             \cup RC(Len(e.eq) = n, "equality: one answer per element expected")
             \cup RC(Len(e.eq) = 1 \/ e.esh = (IF n1 > 1 THEN e.sh1 ELSE e.sh2), "equality: shape of the answer")
             \cup RC(Len(e.eq) /= n \/ \A k \in 1..n : w[k] = "any" \/ e.eq[k] = (w[k] = "t"), "equality: wrong answer")
             \cup RC(e.rev = e.eq, "equality: depends on the order of the operands")
             \cup RC(\A k \in 1..Len(e.op2) : e.props \/ e.op2[k] = e.eq[1], "equality: the operator disagrees")
             \cup RC(e.text = ~AllOf(e.eq), "equality: the report must be empty exactly on equality")
             \cup RC(e.kept, "equality: the operands were modified")

Judge(e) == CASE e.op = "arel" -> JudgeArel(e) [] e.op = "dicts" -> JudgeDicts(e) [] e.op = "baddicts" -> JudgeBadDicts(e) [] e.op = "equal" -> JudgeEqual(e)
=============================================================================
