------------------------------- MODULE MC_LinAlg -------------------------------
(***************************************************************************)
(* Small vectors and matrices: the contracts of LinAlg can be met (by a    *)
(* reflection, by a sorted permutation), are consistent, and every case is *)
(* tried on the real functions.                                            *)
(***************************************************************************)
EXTENDS LinAlg, Json, IOUtils, SequencesExt
I(S) == {FInt(n) : n \in S}
Vec2 == {<<a, b>> : a, b \in I(-1..1)}
Vec3 == {<<a, b, c>> : a \in I(-1..1), b, c \in I(0..1)}
Transl == {[op |-> "transl", src |-> s, dst |-> d] : s, d \in Vec2} \cup {[op |-> "transl", src |-> s, dst |-> d] : s, d \in Vec3}
          \cup {[op |-> "transl", src |-> <<s>>, dst |-> <<d>>] : s, d \in I(-1..1)}
Mats == {[op |-> "mat", m |-> <<<<a, b>>, <<c, d>>>>, tol |-> t] : a, b, d \in I(-1..2), c \in I(0..1), t \in {Zero, Half, One}}
Sorts == {[op |-> "sort", m |-> <<<<a, d>>, <<b, e>>, <<c, f>>>>, tol |-> t] : a, b, c \in I(0..2), d, e, f \in I(0..1), t \in {Zero, One}}
         \cup {[op |-> "sort", m |-> [k \in 1..4 |-> <<v[k]>>], tol |-> t] : v \in [1..4 -> {Zero, Half, One, Two}], t \in {Zero, Half, One}}
Part == IOEnv.PART
Cases == CASE Part = "transport" -> Transl [] Part = "matrices" -> Mats [] Part = "sorting" -> Sorts [] OTHER -> Transl \cup Mats \cup Sorts
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
VARIABLE case
Init == case \in Cases
Next == UNCHANGED case
\* a reflection meets the contract of the transport
Reflect(s, d) == LET n == Len(s)  w == VSub(Unit(s), Unit(d)) IN
                 IF FLe(Norm2(w), E9) THEN Ident(n) ELSE MSub(Ident(n), MScale(FDiv(Two, Norm2(w)), Outer(w, w)))
Achievable == (case.op = "transl" /\ ~IsZero(case.src) /\ ~IsZero(case.dst)) =>
  LET o == Reflect(case.src, case.dst) IN Orthogonal(o, Len(case.src)) /\ Maps(o, case.src, case.dst)
\* predicates agree with each other
Predicates == (case.op = "mat" /\ SymTol(case.m, Zero)) =>
  LET m == case.m  t == case.tol IN
  /\ (Near(m, t, FALSE) = "t" => Near(m, t, TRUE) = "t")
  /\ (Near(m, t, TRUE) = "f" => Near(m, t, FALSE) = "f")
  /\ (Near(m, t, FALSE) = "t" => NotDeg(m, t) /= "f")
  /\ (FLe(E4, t) /\ NotDeg(m, t) = "f" => Near(m, t, FALSE) /= "t")
  /\ (Near(m, t, TRUE) = "f" => Near(MScale(FInt(-1), m), Zero, FALSE) /= "t" \/ FLt(TraceOf(m), Zero))
\* raising the eigenvalues of a matrix that is high enough does nothing, and is a projection
Raise == (case.op = "mat" /\ SymTol(case.m, Zero) /\ FLt(Zero, case.tol)) =>
  (Raised(case.m, case.m, case.tol) <=> PSD(Shift(case.m, case.tol), Zero))
\* the order of rows is a strict total order, so that there is exactly one sorted permutation
Order == case.op = "sort" => LET cl == Classes(case.m, case.tol)  n == Len(case.m) IN
  /\ \A i, k \in 1..n : i = k \/ (RowBefore(cl, i, k) /= RowBefore(cl, k, i))
  /\ \A i, j, k \in 1..n : (RowBefore(cl, i, j) /\ RowBefore(cl, j, k)) => RowBefore(cl, i, k)
\* without tolerance it is the lexicographic order of the values
Exact == (case.op = "sort" /\ case.tol = Zero) => LET cl == Classes(case.m, Zero) IN
  \A i, k \in 1..Len(case.m) : \A j \in 1..Len(case.m[1]) : (cl[i][j] < cl[k][j]) <=> FLt(case.m[i][j], case.m[k][j])
=============================================================================
